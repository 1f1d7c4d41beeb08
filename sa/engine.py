"""Abstract interpretation of the repository's functions.

Abstract values are provenance terms (terms.py); mutable objects made inside the analysed code live in an
abstract heap as operation lists; branches add boolean facts about terms, and a path is dropped only when
one and the same fact would have to be both true and false. States that differ in nothing but facts are
joined (keeping the common facts). Loops over unknown collections are joined after a fixed number of
abstract iterations. Calls inside the repository are followed (context sensitively) unless the rule treats
the callee as a unit of its own."""
import ast
import copy
import json
import urllib.parse
import builtins
import posixpath
import string
from collections import namedtuple

from .loader import AnalysisBroken
from .loader import Cls
from .loader import Func
from .terms import C
from .terms import FALSE
from .terms import NONE
from .terms import TRUE
from .terms import cat
from .terms import is_const
from .terms import mentions
from .terms import undeep

HObj = namedtuple('HObj', 'kind cls base ops attrs')
Event = namedtuple('Event', 'kind name callee recv args kw res func line')
# kind: call setattr setitem delitem delattr raise; for set*: recv=base args=(key, value)


class Limit(Exception):
    """Too many states: the function can not be decided"""


class Outcome:
    __slots__ = ('kind', 'value', 'state', 'line')

    def __init__(self, kind, value, state):
        self.kind = kind        # 'return' | 'raise'
        self.value = value
        self.state = state

    @property
    def facts(self):
        return self.state.facts

    @property
    def events(self):
        return [e for e, _ in self.trace]

    @property
    def trace(self):
        return list(zip(self.state.events, self.state.efacts))


class State:
    __slots__ = ('env', 'stack', 'heap', 'facts', 'events', 'efacts', 'sites', 'exc')

    def __init__(self):
        self.env = {}
        self.stack = ()
        self.heap = {}
        self.facts = {}
        self.events = ()
        self.efacts = ()
        self.sites = {}
        self.exc = None

    def clone(self):
        s = State.__new__(State)
        s.env = self.env
        s.stack = self.stack
        s.heap = self.heap
        s.facts = self.facts
        s.events = self.events
        s.efacts = self.efacts
        s.sites = self.sites
        s.exc = self.exc
        return s

    def setenv(self, name, val):
        s = self.clone()
        s.env = dict(self.env)
        s.env[name] = val
        return s

    def sethobj(self, key, obj):
        s = self.clone()
        s.heap = dict(self.heap)
        s.heap[key] = obj
        return s

    def event(self, ev):
        s = self.clone()
        s.events = self.events + (ev,)
        s.efacts = self.efacts + (self.facts,)
        return s

    def site(self, key):
        n = self.sites.get(key, 0)
        s = self.clone()
        s.sites = dict(self.sites)
        s.sites[key] = n + 1
        return s, n


class Flow:
    __slots__ = ('n', 'r', 'b', 'c')

    def __init__(self):
        self.n, self.r, self.b, self.c = [], [], [], []


IMPURE = {'rndstr', 'unreserved', 'utc_time_sans_frac', 'time_sans_frac', 'time', 'uuid4', 'urandom', 'choice',
          'token_urlsafe', 'token_hex', 'open', 'request', 'get_response', 'do_request', 'send',
          'key_by_alg', 'randint', 'randrange', 'random', 'sample', 'choices', 'getrandbits', 'instant',
          'create_state', 'init_client', 'now', 'utcnow', 'uuid1', 'time_ns', 'monotonic'}

QUIET = {'len', 'str', 'repr', 'format', 'list', 'dict', 'set', 'tuple', 'isinstance', 'callable', 'id',
         'type', 'bool', 'print', 'enumerate', 'zip', 'range', 'exc_info', 'format_exception',
         'currentframe', 'getLogger', 'utc_time_sans_frac', 'time_sans_frac', 'rndstr', 'unreserved',
         'lower', 'upper', 'startswith', 'endswith', 'strip', 'format_exc', 'keys', 'items', 'values',
         'to_dict', 'required_parameters', 'parameters', 'extra', 'sorted', 'frozenset', 'any', 'all',
         'copy', 'deepcopy', 'super', 'lstrip', 'rstrip', 'verified_claim_name', 'is_error_message', 'qualified_name'}

# calls without an effect of their own: they show up in the values, not as events
PURE = (QUIET - {'exc_info', 'rndstr', 'unreserved'}) | {
    'split', 'replace', 'encode', 'decode', 'isdigit', 'title', 'find', 'rfind', 'rsplit', 'partition', 'rpartition',
    'index', 'count', 'splitlines', 'join', 'urlparse', 'urlsplit', 'sanitize', 'intersection', 'union',
    'difference', 'issubset', 'issuperset', 'hexdigest', 'digest', 'endswith', 'weekday'}

LOG = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}

DB_METHODS = {'store_item', 'get_item', 'get_state', 'get_iss', 'extend_request_args',
              'multiple_extend_request_args', 'store_x2state', 'get_state_by_x', 'store_nonce2state',
              'get_state_by_nonce', 'store_logout_state2state', 'get_state_by_logout_state',
              'store_sid2state', 'get_state_by_sid', 'store_sub2state', 'get_state_by_sub',
              'create_state', 'remove_state'}


# functions that are analysed as units of their own: a rule about their caller sees the call, not the body
UNITS = set('''init_client do_provider_info do_client_registration do_webfinger client_setup init_authorization begin
get_client_authn_method get_tokens refresh_access_token get_user_info userinfo_in_id_token finalize_auth
get_access_and_id_token finalize get_valid_access_token logout close clear_session pick_config get_response_type
get_client_from_session_key get_session_information has_active_authentication backchannel_logout
do_request service_request get_response parse_request_response
gather_request_args do_pre_construct do_post_construct update_service_context construct construct_request
init_authentication_method get_headers get_authn_header get_request_parameters parse_response post_parse_response
gather_verify_arguments get_http_url get_http_body set_cookie load_registration_response import_keys
generate_request_uris assertion_jwt find_token cookie_signature verify_cookie_signature make_cookie parse_cookie
create_header push_authorization request_object_encryption construct_request_uri add_callback_uris add_callbacks
create_callbacks match_preferences dynamic_provider_info_discovery init_services do_add_ons create_context importer
sanitize service_factory pick_redirect_uri get_deserialization_method verify_header get_sign_alg
get_enc_alg_enc get_value_type load_configuration load_yaml_config configure_logging fetch_distributed_claims
get_http_params'''.split())


class Config:
    def __init__(self, **kw):
        self.opaque = set(DB_METHODS) | UNITS
        self.inline = set()
        self.inline_deps = {'verified_claim_name', 'is_error_message'}
        self.loop_iters = 1
        self.watch = None
        self.keep = None            # atoms whose truth states are not joined over
        self.join_ops = True
        self.inline_base = True     # follow a method into the one it overrides
        self.unroll_max = 12
        self.types = {}
        self.ret_types = {'init_client': 'oidcrp.oidc.RP', 'get_client_from_session_key': 'oidcrp.oidc.RP',
                          'client_setup': 'oidcrp.oidc.RP', 'do_webfinger': 'oidcrp.oidc.RP'}
        self.owner_cls = 'oidcrp.oidc.RP'
        self.services = {}
        self.max_states = 6000
        self.max_steps = 3000000
        self.depth = 14
        self.class_consts = {'service_name', 'endpoint_name'}
        self.never_raise = set()
        self.throws = set()         # calls whose failures are recorded
        self.may_raise = {}         # what opaque calls raise even if nobody around catches it
        self.const_attrs = {}
        self.given = {}             # what named attributes hold
        self.harmless = set()       # calls that leave alone what they are given
        self.results = {}           # what named calls that are not followed yield
        self.fold = False           # compute library functions on URLs and serialisations of known values
        for k, v in kw.items():
            if k == 'opaque':
                self.opaque = self.opaque | set(v)
            elif k == 'transparent':
                self.opaque = self.opaque - set(v)
            elif k == 'ret_types':
                self.ret_types = {**self.ret_types, **v}
            else:
                if not hasattr(self, k):
                    raise TypeError(k)
                setattr(self, k, v)


# library functions on paths that compute on their arguments only, and constants
PURE_EXT = {'os.path.' + n: getattr(posixpath, n) for n in ('isabs', 'basename', 'dirname', 'normpath', 'join', 'splitext')}
CONST_EXT = {'os.pardir': '..', 'os.curdir': '.', 'os.sep': '/', 'os.path.sep': '/', 'os.path.pardir': '..'}

# library functions on URLs and serialisations
FOLDED = {'urllib.parse.' + n: getattr(urllib.parse, n) for n in (
    'urlsplit', 'urlparse', 'parse_qs', 'parse_qsl', 'urlunsplit', 'urlunparse', 'urlencode', 'quote', 'quote_plus', 'unquote', 'unquote_plus', 'urljoin')}
FOLDED['json.dumps'] = json.dumps
FOLDED['json.loads'] = json.loads
URL_PARTS = {5: urllib.parse.SplitResult, 6: urllib.parse.ParseResult}


class NotKnown(Exception):
    pass


def known_value(t):
    """the value that a frozen term stands for"""
    if t[0] == 'c':
        return t[2]
    if t[0] == 'tup':
        return tuple(known_value(x) for x in t[1])
    if t[0] == 'obj' and t[3] is None and t[1] in ('list', 'set') and all(op[0] == 'e' for op in t[4]):
        els = [known_value(op[1]) for op in t[4]]
        return set(els) if t[1] == 'set' else els
    if t[0] == 'obj' and t[3] is None and t[1] not in ('list', 'set'):
        res = {}
        for op in t[4]:
            if op[0] == 'set':
                res[known_value(op[1])] = known_value(op[2])
            elif op[0] == 'upd':
                res.update(known_value(op[1]))
            elif op[0] == 'del':
                res.pop(known_value(op[1]), None)
            else:
                raise NotKnown
        return res
    raise NotKnown


def term_of(v):
    """the frozen term of a value"""
    if isinstance(v, tuple):
        return ('tup', tuple(term_of(x) for x in v))
    if isinstance(v, list):
        return ('obj', 'list', None, None, tuple(('e', term_of(x)) for x in v), ())
    if isinstance(v, dict):
        return ('obj', 'dict', None, None, tuple(('set', C(k), term_of(x)) for k, x in v.items()), ())
    return C(v)


NO_REFS = frozenset()


def replaced(t, old, new):
    """t with a term put in place of another"""
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replaced(x, old, new) for x in t)
    return t


def const_collection(t):
    """(kind, contents) of a collection of constants, or None"""
    if t[0] == 'tup':
        els = t[1]
        kind = 'tuple'
    elif t[1] in ('list', 'set') and t[2] is None and t[3] is None and all(op[0] == 'e' for op in t[4]):
        els = [op[1] for op in t[4]]
        kind = t[1]
    else:
        return None
    if not all(isinstance(e, tuple) and e and e[0] == 'c' for e in els):
        return None
    vals = [e[2] for e in els]
    return kind, frozenset(vals) if kind == 'set' else vals


def E_call(callee, args=(), kw=(), uid=None):
    if uid is None:
        return ('call', callee, tuple(args), tuple(kw))
    return ('call', callee, tuple(args), tuple(kw), uid)


def _args(pos):
    return ['__a{}'.format(i) for i in range(len(pos))]


def _getter(pos):
    """attrgetter"""
    if len(pos) == 1 and pos[0][0] == 'c' and isinstance(pos[0][2], str) and all(x.isidentifier() for x in pos[0][2].split('.')):
        return 'lambda __o: __o.' + pos[0][2]
    return None


def _caller(pos):
    """methodcaller"""
    if pos and pos[0][0] == 'c' and isinstance(pos[0][2], str) and pos[0][2].isidentifier():
        return 'lambda __o: __o.{}({})'.format(pos[0][2], ', '.join(_args(pos)[1:]))
    return None


# functions of the standard library, and the expressions they stand for
AS_SOURCE = {
    'operator.itemgetter': (['__k'], 'lambda __o: __o[__k]'),
    'operator.attrgetter': (None, _getter),
    'operator.methodcaller': (None, _caller),
    'operator.getitem': (['__o', '__k'], '__o[__k]'),
    'operator.contains': (['__o', '__k'], '__k in __o'),
    'operator.eq': (['__o', '__k'], '__o == __k'),
    'operator.ne': (['__o', '__k'], '__o != __k'),
    'operator.not_': (['__o'], 'not __o'),
    'operator.is_': (['__o', '__k'], '__o is __k'),
    'operator.is_not': (['__o', '__k'], '__o is not __k'),
    'itertools.chain': (None, lambda pos: '(__x for __it in ({}) for __x in __it)'.format(''.join(a + ', ' for a in _args(pos)))),
    'itertools.chain.from_iterable': (['__its'], '(__x for __it in __its for __x in __it)'),
    'itertools.filterfalse': (['__f', '__it'], '(__x for __x in __it if not __f(__x))'),
    'itertools.starmap': (['__f', '__it'], '(__f(*__x) for __x in __it)'),
    'collections.ChainMap': (None, lambda pos: '{{{}}}'.format(', '.join('**' + a for a in reversed(_args(pos))))),
}


class Yielded(ast.NodeTransformer):
    """a generator function as one that returns a list"""
    NAME = '__yielded__'

    def run(self, node):
        node = copy.deepcopy(node)
        node.body = [x for b in node.body for x in self.some(self.visit(b))]
        first, last = node.body[0], node.body[-1]
        node.body.insert(0, ast.copy_location(ast.Assign([ast.Name(self.NAME, ast.Store())], ast.List([], ast.Load())), first))
        end = ast.Return(ast.Name(self.NAME, ast.Load()))
        end.lineno = end.end_lineno = (last.end_lineno or last.lineno) + 1
        end.col_offset = end.end_col_offset = 0
        node.body.append(end)
        return ast.fix_missing_locations(node)

    @staticmethod
    def some(x):
        return x if isinstance(x, list) else [x]

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Name(self.NAME, ast.Load())), n)

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            name = 'append' if isinstance(n.value, ast.Yield) else 'extend'
            val = n.value.value or ast.Constant(None)
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(self.NAME, ast.Load()), name, ast.Load()), [val], [])), n)
        return n


class Engine:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.cfg = cfg or Config()
        self.sink = []
        self.handlers = []      # dynamically enclosing handler type sets
        self.yielders = []      # what is done at a yield of the function at hand
        self.lazy = None        # the call that a loop goes over
        self.gens = []
        self.made = {}
        self.callstack = []
        self.roots = []
        self.nstates = 0
        self.nsteps = 0
        self.analysed = set()
        self.closures = {}
        self.refs_of = {}
        self.captures = {}
        self.undecided = []
        self._attrcache = {}
        self._livecache = {}
        self._globcache = {}
        self._svc = None
        self._logcache = {}
        self.own_names = {}     # ** parameter of the function analysed -> names that cannot be in it

    # ------------------------------------------------------------------ entry
    def run(self, func, self_val=None, args=None, kwargs=None, state=None, entry_types=None):
        """Analyse a function with symbolic arguments; args: name -> term."""
        args = dict(args or {})
        st = state or State()
        env, st = self._entry_env(func, self_val, args, kwargs, st)
        st = st.clone()
        st.env = env
        self.sink = []
        self.handlers = []
        self.yielders = []
        self.callstack = [func.dotted]
        self.frames = [func]
        self.analysed.add(func.dotted)
        flow = self.exec_block(func.node.body, [st])
        outs = []
        for s in flow.n:
            outs.append(('return', NONE, s))
        for s, v in flow.r:
            outs.append(('return', v, s))
        for s, v in self.sink:
            outs.append(('raise', v, s))
        res = []
        for kind, v, s in outs:
            s = s.clone()
            s.env = {}
            res.append((kind, v, s))
        return [Outcome(k, v, s) for k, v, s in self._merge_vals(res)]

    def _entry_env(self, func, self_val, args, kwargs, st):
        a = func.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        if a.kwarg:
            self.own_names[('sym', a.kwarg.arg)] = {p.arg for p in a.args + a.kwonlyargs}
        if func.cls is not None and 'staticmethod' not in func.decs and params:
            if self_val is None:
                self_val = ('sym', 'self')
                self.cfg.types[self_val] = func.cls.dotted
            env[params[0]] = self_val
            params = params[1:]
        for p in params + [p.arg for p in a.kwonlyargs]:
            v = args.pop(p, None)
            if v is None:
                v = ('sym', p)
            env[p], st = self._entry_val(func, p, v, st)
        if a.vararg:
            env[a.vararg.arg] = args.pop(a.vararg.arg, ('sym', a.vararg.arg))
        if a.kwarg:
            v = args.pop(a.kwarg.arg, None)
            if v is not None:
                v, st = self._entry_val(func, a.kwarg.arg, v, st)
            if v is None:
                # what is left of the named arguments ends up here
                base = ('sym', a.kwarg.arg) if kwargs is None else kwargs
                if args:
                    ops = tuple(('set', C(n), val) for n, val in sorted(args.items()))
                    key = ('ref', ('entry', func.dotted, a.kwarg.arg))
                    st = st.sethobj(key, HObj('dict', None, base, ops, ()))
                    v = key
                else:
                    v = base
            env[a.kwarg.arg] = v
        return env, st

    @staticmethod
    def _entry_val(func, p, v, st):
        """a container passed as an argument is an object of its own"""
        if v[0] != 'obj':
            return v, st
        key = ('ref', ('entry', func.dotted, p))
        return key, st.sethobj(key, HObj(v[1], v[2], v[3], v[4], v[5]))

    # ------------------------------------------------------------------ services
    def service_cls(self, name):
        if self._svc is None:
            self._svc = {}
            for c in self.prog.subclasses('oidcrp.service.Service'):
                ca = self.prog.class_attr(c, 'service_name')
                if ca and isinstance(ca[1], ast.Constant) and ca[1].value:
                    pri = 0 if c.dotted.startswith('oidcrp.oidc.') else (
                        1 if c.dotted.startswith('oidcrp.oauth2.') and 'credentials' not in c.dotted else 2)
                    old = self._svc.get(ca[1].value)
                    if old is None or pri < old[0]:
                        self._svc[ca[1].value] = (pri, c.dotted)
        if name in self.cfg.services:
            return self.cfg.services[name]
        v = self._svc.get(name)
        return v[1] if v else 'oidcrp.service.Service'

    # ------------------------------------------------------------------ types
    def typeof(self, t, st=None):
        """-> Cls or None"""
        d = self._typeof(t, st)
        if d is None:
            return None
        if isinstance(d, Cls):
            return d
        try:
            return self.prog.cls(d)
        except AnalysisBroken:
            return None

    def _typeof(self, t, st):
        if t in self.cfg.types:
            return self.cfg.types[t]
        k = t[0]
        if k == 'deep':
            return self._typeof(t[1], st)
        if k == 'ref' and st is not None:
            o = st.heap.get(t)
            if o is not None and o.cls is not None and o.cls[0] == 'cls':
                return o.cls[1]
            if o is not None and o.base is not None and o.kind == 'inst':
                return self._typeof(o.base, st)
            return None
        if k == 'obj':
            if t[2] is not None and t[2][0] == 'cls':
                return t[2][1]
            return None
        if k == 'owner':
            return self.cfg.owner_cls
        if k == 'attr':
            n = t[2]
            if n == '_service_context':
                return 'oidcrp.service_context.ServiceContext'
            if n == 'state':
                b = self.typeof(t[1], st)
                if b is not None and b.name == 'ServiceContext':
                    return 'oidcrp.state_interface.StateInterface'
            if n == 'http':
                b = self.typeof(t[1], st)
                if b is not None and self.prog.is_subclass(b, 'oidcrp.entity.Entity'):
                    return None
            return None
        if k == 'item':
            b = t[1]
            if b[0] == 'attr' and b[2] == '_service':
                if is_const(t[2]):
                    return self.service_cls(t[2][2])
                return 'oidcrp.service.Service'
            if b[0] == 'attr' and b[2] == 'issuer2rp':
                return 'oidcrp.oidc.RP'
            if b[0] == 'sym' and b[1] in ('services',):
                if is_const(t[2]):
                    return self.service_cls(t[2][2])
                return 'oidcrp.service.Service'
            return None
        if k == 'call':
            c = t[1]
            name = c[2] if c[0] == 'meth' else c[1].split('.')[-1] if c[0] in ('func', 'ext', 'cls') else ''
            if c[0] == 'cls':
                return c[1]
            if name in self.cfg.ret_types:
                return self.cfg.ret_types[name]
            if name in ('from_json', 'from_dict', 'from_urlencoded', 'from_jwt', 'deserialize', 'copy') and c[0] == 'meth':
                return self._typeof(c[1], st)
            if name == 'get_item' and t[2]:
                for a in t[2]:
                    if a[0] == 'cls':
                        return a[1]
            if name == 'get_state':
                return 'oidcrp.state_interface.State'
        return None

    def is_message_cls(self, t):
        if t[0] == 'cls':
            try:
                c = self.prog.cls(t[1])
            except AnalysisBroken:
                return False
            return self.prog.is_subclass(c, 'oidcmsg.message.Message')
        if t[0] == 'attr' and t[2] in ('msg_type', 'response_cls', 'error_msg'):
            return True
        return False

    def class_attr_names(self, cls):
        """attributes instances of a class have: assigned in some method or at class level"""
        if cls.dotted not in self._attrcache:
            names = set()
            for c in self.prog.mro(cls):
                names |= set(c.methods) | set(c.attrs)
                for m in c.methods.values():
                    selfname = m.args.args[0].arg if m.args.args else None
                    for n in ast.walk(m):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == selfname:
                            names.add(n.attr)
                ca = c.attrs.get('parameter')
                if ca is not None:
                    for n in ast.walk(c.node):
                        if isinstance(n, ast.Dict):
                            for kk in n.keys:
                                if isinstance(kk, ast.Constant) and isinstance(kk.value, str):
                                    names.add(kk.value)
            self._attrcache[cls.dotted] = names
        return self._attrcache[cls.dotted]

    # ------------------------------------------------------------------ merging
    def _live(self, func_node, line):
        key = id(func_node)
        if key not in self._livecache:
            loads = []
            loops = []
            for n in ast.walk(func_node):
                if isinstance(n, ast.Name):
                    loads.append((n.lineno, n.id))
                    if n.id == 'super' and isinstance(func_node, ast.FunctionDef) and func_node.args.args:
                        loads.append((n.lineno, func_node.args.args[0].arg))
                elif isinstance(n, (ast.For, ast.While)):
                    loops.append((n.lineno, n.end_lineno))
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not func_node:
                    # read whenever it is called
                    loads.extend((float('inf'), m.id) for m in ast.walk(n) if isinstance(m, ast.Name))
                elif isinstance(n, ast.Try) and n.finalbody:
                    pass
            self._livecache[key] = (loads, loops)
        loads, loops = self._livecache[key]
        lo = line
        names = set()
        ranges = [(a, b) for a, b in loops if a <= line <= b]
        for ln, nm in loads:
            if ln > lo or any(a <= ln <= b for a, b in ranges):
                names.add(nm)
        return names

    def _refs(self, t):
        """references and closures in a term"""
        known = self.refs_of.get(id(t))
        if known is not None:
            return known[1]
        if t and t[0] in ('ref', 'closure'):
            res = frozenset((t,))
        else:
            res = NO_REFS
            for x in t:
                if isinstance(x, tuple) and x:
                    r = self._refs(x)
                    if r and not r <= res:
                        res = res | r
        # (the term is kept, so that its id stays its own)
        self.refs_of[id(t)] = (t, res)
        return res

    def _reach(self, st, extra=()):
        seen = set()
        todo = [t for t in st.env.values() if isinstance(t, tuple)]
        todo.extend(extra)
        for e in st.stack:
            todo.extend(e.values())
        for r in self.roots:
            todo.extend(r)
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or not t:
                continue
            for r in self._refs(t):
                if r in seen:
                    continue
                seen.add(r)
                if r[0] == 'ref':
                    o = st.heap.get(r)
                    if o is not None:
                        todo.extend((o.base, o.cls, o.ops, o.attrs))
                else:
                    cl = self.closures.get(r)
                    if cl:
                        todo.extend(cl[2].values())
        return seen

    def _key(self, st, extra=()):
        reach = self._reach(st, extra)
        heap = frozenset((k, v) for k, v in st.heap.items() if k[0] != 'ref' or k in reach)
        env = frozenset(st.env.items())
        stack = tuple(id(e) for e in st.stack)
        return (env, stack, heap, st.events, st.exc, self._kept(st))

    def _kept(self, st):
        if self.cfg.keep is None:
            return None
        return frozenset((a, p) for a, p in st.facts.items() if self.cfg.keep(a))

    @staticmethod
    def _meet(f1, f2):
        if f1 is f2:
            return f1
        res = {k: v for k, v in f1.items() if f2.get(k) == v}
        for a, b in ((f1, f2), (f2, f1)):
            for k, v in a.items():
                # there is nothing in what is empty
                if k[0] == 'in' and v is False and k not in b and (
                        b.get(('T', k[2])) is False or b.get(('none', k[2])) is True):
                    res[k] = v
        return res

    def _join(self, a, b):
        s = a.clone()
        s.facts = self._meet(a.facts, b.facts)
        s.efacts = tuple(self._meet(x, y) for x, y in zip(a.efacts, b.efacts))
        if a.sites is not b.sites:
            s.sites = dict(a.sites)
            for k, v in b.sites.items():
                if s.sites.get(k, 0) < v:
                    s.sites[k] = v
        return s

    def merge(self, states, line=None, node=None):
        if len(states) < 2:
            return states
        if node is not None and line is not None:
            live = self._live(node, line)
            res = []
            for s in states:
                if any(k not in live for k in s.env):
                    s = s.clone()
                    s.env = {k: v for k, v in s.env.items() if k in live or k == '__self_env__'}
                res.append(s)
            states = res
        out = {}
        for s in states:
            k = self._key(s)
            if k in out:
                out[k] = self._join(out[k], s)
            else:
                out[k] = s
        res = list(out.values())
        if len(res) > 1 and self.cfg.join_ops:
            res = self.join_heaps(res)
        if len(res) > self.cfg.max_states:
            raise Limit('{} states in {}'.format(len(res), self.callstack[-1] if self.callstack else '?'))
        return res

    # -- joining states that differ in what was put into one container
    def join_heaps(self, states):
        groups = {}
        for s in states:
            reach = self._reach(s)
            shape = frozenset((k, v._replace(ops=(), attrs=())) for k, v in s.heap.items() if k[0] != 'ref' or k in reach)
            key = (frozenset(s.env), tuple(id(e) for e in s.stack), s.events, s.exc, shape, self._kept(s))
            groups.setdefault(key, []).append((s, reach))
        res = []
        for lst in groups.values():
            if len(lst) == 1:
                res.append(lst[0][0])
                continue
            done = [s for s, _ in lst]
            reach = set().union(*[r for _, r in lst])
            changed = True
            while changed and len(done) > 1:
                changed = False
                i = 0
                while i < len(done):
                    j = i + 1
                    while j < len(done):
                        m = self._join_pair(done[i], done[j], reach)
                        if m is not None:
                            done[i] = m
                            del done[j]
                            changed = True
                        else:
                            j += 1
                    i += 1
            res.extend(done)
        return res

    def _join_pair(self, a, b, reach):
        diff = []
        ediff = [n for n, v in a.env.items() if v != b.env.get(n)]
        if len(ediff) > 2:
            return None
        for k, v in a.heap.items():
            if k[0] == 'ref' and k not in reach:
                continue
            w = b.heap.get(k)
            if w is v:
                continue
            if w is None:
                return None
            if w.ops != v.ops or w.attrs != v.attrs:
                if w.ops != v.ops and v.kind not in ('dict', 'inst', 'any'):
                    return None
                diff.append(k)
                if len(diff) + len(ediff) > 2:
                    return None
        if not diff and not ediff:
            return self._join(a, b)
        common = {}
        for k in diff:
            oa, ob = a.heap[k].ops, b.heap[k].ops
            n = 0
            while n < len(oa) and n < len(ob) and oa[n] == ob[n]:
                n += 1
            if len(oa) - n + len(ob) - n > 6:
                return None
            common[k] = n
        sep = None
        for atom, pol in a.facts.items():
            if atom[0] in ('=', 'exhausted', 'first'):
                continue
            q = b.facts.get(atom)
            if q is not None and q != pol:
                sep = (atom, pol)
                break
        if sep is None:
            return None
        fa = tuple(sorted(((k, v) for k, v in a.facts.items() if b.facts.get(k) != v), key=repr))
        fb = tuple(sorted(((k, v) for k, v in b.facts.items() if a.facts.get(k) != v), key=repr))
        s = self._join(a, b)
        s.heap = dict(a.heap)
        for k in diff:
            oa, ob = a.heap[k].ops, b.heap[k].ops
            n = common[k]
            ops = oa if oa == ob else oa[:n] + (('cnd', sep[0], sep[1], oa[n:], ob[n:], fa, fb),)
            attrs = a.heap[k].attrs
            if attrs != b.heap[k].attrs:
                da, db = dict(attrs), dict(b.heap[k].attrs)
                attrs = tuple((n, da[n] if n in da and n in db and da[n] == db[n] else
                               ('phi', sep[0], sep[1], da.get(n), db.get(n), fa, fb))
                              for n in list(da) + [x for x in db if x not in da])
            s.heap[k] = a.heap[k]._replace(ops=ops, attrs=attrs)
        if ediff:
            s.env = dict(a.env)
            for n in ediff:
                s.env[n] = ('phi', sep[0], sep[1], a.env[n], b.env[n], fa, fb)
        return s

    def resolve_phi(self, st, v):
        """-> [(state, value)]"""
        if v is None or v[0] != 'phi':
            return [(st, v)]
        res = []
        for s, w in self.resolve_cnd(st, v):
            res.extend(self.resolve_phi(s, w))
        return res

    def resolve_cnd(self, st, op):
        """-> [(state, ops)] for one conditional operation"""
        res = []
        for s, p in self.fork(st, op[1]):
            hit = p == op[2]
            extra = op[5] if hit else op[6]
            ok = True
            for atom, pol in extra:
                if atom in s.facts:
                    if s.facts[atom] != pol:
                        ok = False
                        break
            if not ok:
                continue
            s = s.clone()
            s.facts = {**s.facts, **dict(extra)}
            res.append((s, op[3] if hit else op[4]))
        return res

    def has_cnd(self, t, st):
        o = st.heap.get(t)
        ops = o.ops if o is not None else t[4] if t[0] == 'obj' else ()
        if any(op[0] == 'cnd' for op in ops):
            return True
        base = o.base if o is not None else t[3] if t[0] == 'obj' else None
        if base is not None and base != t and base[0] in ('obj', 'ref'):
            return self.has_cnd(base, st)
        return False

    def expand(self, st, t):
        """states in which the content of a container no longer depends on open conditions -> [(state, t)]"""
        if t[0] == 'view':
            return [(s, ('view', t[1], b)) for s, b in self.expand(st, t[2])]
        o = st.heap.get(t)
        if o is None:
            if t[0] != 'obj':
                return [(st, t)]
            o = HObj(t[1], t[2], t[3], t[4], t[5])
        cur = [(st, ())]
        todo = [(st, (), o.ops)]
        out = []
        while todo:
            s, done, rest = todo.pop()
            i = 0
            while i < len(rest) and rest[i][0] != 'cnd':
                i += 1
            done = done + rest[:i]
            if i == len(rest):
                out.append((s, done))
                continue
            for s2, ops in self.resolve_cnd(s, rest[i]):
                todo.append((s2, done, ops + rest[i + 1:]))
        res = []
        for s, ops in out:
            if t in s.heap or t[0] == 'ref':
                res.append((s.sethobj(t, o._replace(ops=ops)) if ops != o.ops else s, t))
            else:
                res.append((s, ('obj', t[1], t[2], t[3], ops, t[5])))
        return res

    def _merge_vals(self, triples):
        out = {}
        for kind, v, s in triples:
            k = (kind, v, self._key(s, (v,)))
            if k in out:
                out[k] = (kind, v, self._join(out[k][2], s))
            else:
                out[k] = (kind, v, s)
        return list(out.values())

    # ------------------------------------------------------------------ facts
    def norm_atom(self, atom):
        k = atom[0]
        atom = (k,) + tuple(undeep(x) if isinstance(x, tuple) else x for x in atom[1:])
        if k == 'eq':
            a, b = atom[1], atom[2]
            if repr(b) < repr(a):
                a, b = b, a
            return ('eq', a, b)
        if k == 'in':
            return ('in', atom[1], self.iter_base(atom[2]))
        if k == 'T':
            t = atom[1]
            b = self.iter_base(t)
            return ('T', b)
        return atom

    def iter_base(self, t):
        """the collection an iterable enumerates"""
        while True:
            if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] in ('keys', 'copy') and not t[2]:
                t = t[1][1]
            elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
                    'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.set',
                    'builtins.frozenset') and len(t[2]) == 1:
                t = t[2][0]
            elif t[0] == 'deep':
                t = t[1]
            elif t[0] == 'obj' and t[1] in ('list', 'dict', 'any', 'set') and not t[4] and not t[5] and t[3] is not None:
                t = t[3]
            else:
                return t

    def decide(self, st, atom):
        """True / False / None"""
        atom = self.norm_atom(atom)
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k == 'in' and atom[2] in self.own_names and atom[1][0] == 'c' and atom[1][2] in self.own_names[atom[2]]:
            return False
        if k == 'T':
            t = atom[1]
            if t[0] == 'c':
                return bool(t[2])
            if t[0] in ('func', 'cls', 'mod', 'bound', 'ext', 'closure', 'partial', 'exc'):
                return True
            if t[0] == 'tup':
                return bool(t[1])
            if t[0] == 'cat':
                if any(p[0] == 'c' and p[2] for p in t[1]):
                    return True
                return None
            if t[0] == 'obj':
                if t[1] == 'inst' and not self._cls_message(t[2]):
                    return True
                if t[3] is None:
                    if not t[4]:
                        return False
                    if all(o[0] in ('set', 'e') for o in t[4]):
                        return True
                for o in reversed(t[4]):
                    if o[0] in ('set', 'e'):
                        return True
                    if o[0] not in ('upd', 'ext', 'dflt', 'ins', 'cnd') or o[0] == 'cnd' and any(
                            x[0] not in ('set', 'e', 'upd', 'ext') for x in o[3] + o[4]):
                        break
                return None
            if t[0] == 'call' and t[1][0] in ('cls',) and not self.is_message_cls(t[1]):
                return True
            v = f.get(('=', t))
            if v is not None:
                return bool(v[2])
            if f.get(('none', t)) is True:
                return False
            return None
        if k == 'none':
            t = atom[1]
            if t[0] == 'c':
                return t[2] is None
            if t[0] in ('func', 'cls', 'mod', 'bound', 'cat', 'tup', 'obj', 'closure', 'partial', 'ref', 'exc'):
                return False
            if t[0] == 'call' and t[1][0] == 'cls':
                return False
            if f.get(('T', t)) is True:
                return False
            v = f.get(('=', t))
            if v is not None:
                return v[2] is None
            return None
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if a[0] == 'c' and b[0] == 'c':
                return a[2] == b[2]
            ca = a if a[0] == 'c' else f.get(('=', a))
            cb = b if b[0] == 'c' else f.get(('=', b))
            if ca is not None and cb is not None:
                return ca[2] == cb[2]
            if a[0] in ('obj', 'tup') and b[0] in ('obj', 'tup'):
                x, y = const_collection(a), const_collection(b)
                if x is not None and y is not None:
                    return x == y
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    if x[0] in ('tup', 'obj', 'func', 'cls', 'bound'):
                        return False
                    if c[2] and f.get(('T', x)) is False:
                        return False
                    if not c[2] and f.get(('T', x)) is True:
                        return False
                    if x[0] == 'cat' and c[1] != 'str':
                        return False
                    if x[0] == 'cat' and c[1] == 'str':
                        if self._lit(x, 0) and not c[2].startswith(self._lit(x, 0)) or \
                                self._lit(x, -1) and not c[2].endswith(self._lit(x, -1)):
                            return False
            if a[0] == 'cat' and b[0] == 'cat':
                p, q = self._lit(a, 0), self._lit(b, 0)
                if p and q and not (p.startswith(q) or q.startswith(p)):
                    return False
                p, q = self._lit(a, -1), self._lit(b, -1)
                if p and q and not (p.endswith(q) or q.endswith(p)):
                    return False
            return None
        if k == 'lt':
            a, b = atom[1], atom[2]
            ca = a if a[0] == 'c' else f.get(('=', a))
            cb = b if b[0] == 'c' else f.get(('=', b))
            if ca is not None and cb is not None:
                try:
                    return ca[2] < cb[2]
                except TypeError:
                    return None
            if a == b:
                return False
            if f.get(('lt', b, a)) is True:
                return False
            # a < c known with another constant
            for (kk, v) in f.items():
                if kk[0] == 'lt':
                    if kk[1] == a and cb is not None and kk[2][0] == 'c':
                        try:
                            if v and kk[2][2] <= cb[2]:
                                return True
                            if not v and kk[2][2] >= cb[2]:
                                return False
                        except TypeError:
                            pass
                    if kk[2] == b and ca is not None and kk[1][0] == 'c':
                        try:
                            if v and kk[1][2] >= ca[2]:
                                return True
                            if not v and kk[1][2] <= ca[2]:
                                return False
                        except TypeError:
                            pass
            return None
        if k == 'in':
            x, c = atom[1], atom[2]
            if f.get(('T', c)) is False or f.get(('none', c)) is True:
                return False
            if c[0] == 'c' and x[0] == 'c':
                try:
                    return x[2] in c[2]
                except TypeError:
                    return None
            if x[0] == 'elem' and self.iter_base(x[1]) == c:
                return True
            if x[0] == 'comp' or c[0] == 'comp':
                return None
            return None
        if k == 'isa':
            t, n = atom[1], atom[2]
            if t[0] == 'c':
                return self._const_isa(t, n)
            if t[0] == 'cat':
                return n == 'builtins.str'
            if t[0] == 'tup':
                return n == 'builtins.tuple'
            if t[0] == 'ext' and n.startswith('builtins.') and isinstance(getattr(builtins, t[1][9:], None) if t[1].startswith('builtins.') else None, type):
                return n in ('builtins.type', 'builtins.object')
            if t[0] == 'obj':
                if t[1] in ('dict', 'list', 'set'):
                    if n in ('builtins.dict', 'builtins.list', 'builtins.set'):
                        return n == 'builtins.' + t[1]
                    if n in ('builtins.str', 'builtins.bytes', 'builtins.int', 'builtins.bool', 'builtins.tuple'):
                        return False
            cls = self.typeof(t)
            if cls is not None:
                if self.prog.is_subclass(cls, n):
                    return True
                if n.startswith('builtins.') and n != 'builtins.object':
                    if n == 'builtins.dict':
                        return False
                    return False
                if n.startswith('oidcmsg.') or n.startswith('oidcrp.'):
                    return None if t[0] != 'obj' else False
            if f.get(('none', t)) is True:
                return False
            v = f.get(('=', t))
            if v is not None:
                return self._const_isa(v, n)
            for other in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.bytes', 'builtins.int'):
                if other != n and n.startswith('builtins.') and f.get(('isa', t, other)) is True:
                    return False
            return None
        return None

    @staticmethod
    def _lit(t, i):
        p = t[1][i]
        return p[2] if p[0] == 'c' and isinstance(p[2], str) else ''

    def _cls_message(self, clsterm):
        return clsterm is not None and self.is_message_cls(clsterm)

    def _const_isa(self, t, n):
        if n.startswith('builtins.'):
            ty = getattr(builtins, n[9:], None)
            if isinstance(ty, type):
                return isinstance(t[2], ty)
        return False

    def assume(self, st, atom, pol):
        """-> State or None when contradictory"""
        atom = self.norm_atom(atom)
        d = self.decide(st, atom)
        if d is not None:
            return st if d == pol else None
        s = st.clone()
        s.facts = dict(st.facts)
        f = s.facts
        f[atom] = pol
        k = atom[0]
        if k == 'eq' and pol:
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c' and x[0] != 'c':
                    f[('=', x)] = y
                    f.setdefault(('T', x), bool(y[2]))
                    f.setdefault(('none', x), y[2] is None)
            if a[0] != 'c' and b[0] != 'c':
                ca, cb = f.get(('=', a)), f.get(('=', b))
                if ca is not None and cb is None:
                    f[('=', b)] = ca
                if cb is not None and ca is None:
                    f[('=', a)] = cb
                for p in ('T', 'none'):
                    va, vb = f.get((p, a)), f.get((p, b))
                    if va is not None and vb is None:
                        f[(p, b)] = va
                    elif vb is not None and va is None:
                        f[(p, a)] = vb
                    elif va is not None and vb is not None and va != vb:
                        return None
        elif k == 'T' and pol:
            f[('none', atom[1])] = False
        elif k == 'none' and pol:
            f[('T', atom[1])] = False
            f[('=', atom[1])] = NONE
        elif k == 'in' and pol:
            if atom[2][0] not in ('c',):
                f[('T', atom[2])] = True
                f[('none', atom[2])] = False
        elif k == 'isa' and pol:
            f[('none', atom[1])] = False
        return s

    def fork(self, st, atom):
        """-> [(state, bool)]"""
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d)]
        res = []
        for pol in (True, False):
            s = self.assume(st, atom, pol)
            if s is not None:
                res.append((s, pol))
        return res

    def truth(self, st, v):
        while v[0] == 'view':
            v = v[2]
        if v[0] in ('ref', 'obj') and self.has_cnd(v, st):
            if self.decide(st, ('T', self.freeze(st, v))) is None:
                return [r for s, v2 in self.expand(st, v) for r in self.fork(s, ('T', self.freeze(s, v2)))]
        if v[0] == 'ref':
            return self.fork(st, ('T', self.freeze(st, v)))
        if v in st.heap:
            return self.fork(st, ('T', self.freeze(st, v)))
        return self.fork(st, ('T', v))

    def same(self, st, a, b):
        """are two keys equal: True/False/None"""
        return self.decide(st, ('eq', a, b))

    # ------------------------------------------------------------------ heap
    def new(self, st, node, kind, cls=None, base=None, ops=(), attrs=()):
        site = (self.callstack[-1] if self.callstack else '', getattr(node, 'lineno', 0),
                getattr(node, 'col_offset', 0), kind)
        st, n = st.site(site)
        ref = ('ref', site + (n,))
        return st.sethobj(ref, HObj(kind, cls, base, tuple(ops), tuple(attrs))), ref

    def freeze(self, st, t, seen=()):
        """snapshot of a value: no references to the abstract heap left"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'c':
            return t
        if t[0] == 'ref':
            o = st.heap.get(t)
            if o is None or t in seen:
                return ('opq', t[1])
            seen = seen + (t,)
            return self._frz(st, o, None, seen)
        if t in st.heap and t not in seen and not self._stateful(st, t):
            o = st.heap[t]
            return self._frz(st, o, t, seen + (t,))
        if t[0] in ('func', 'cls', 'ext', 'mod', 'sym', 'obj', 'closure'):
            return t
        if t[0] == 'partial':
            return ('partial', self.freeze(st, t[1], seen), tuple(self.freeze(st, x, seen) for x in t[2]),
                    tuple((n, self.freeze(st, x, seen)) for n, x in t[3]))
        if t[0] == 'phi':
            return t[:3] + (t[3] and self.freeze(st, t[3], seen), t[4] and self.freeze(st, t[4], seen)) + t[5:]
        if t[0] in ('tup', 'bound', 'cat'):
            return tuple(self.freeze(st, x, seen) if isinstance(x, tuple) and x and isinstance(x[0], str)
                         else (tuple(self.freeze(st, y, seen) for y in x) if isinstance(x, tuple) else x)
                         for x in t)
        return t

    def _frz(self, st, o, base, seen):
        fb = o.base
        if fb is not None and fb != base:
            fb = self.freeze(st, fb, seen)
        ops = tuple(self._frz_op(st, op, seen) for op in o.ops)
        attrs = tuple((n, self.freeze(st, v, seen)) for n, v in o.attrs)
        if not ops and not attrs and base is not None:
            return base
        if not ops and not attrs and o.kind == 'dict' and fb in self.own_names:
            return fb       # ** of the function analysed, passed on
        return ('obj', o.kind, o.cls, fb, ops, attrs)

    def _frz_op(self, st, op, seen):
        if op[0] == 'cnd':
            return op[:3] + (tuple(self._frz_op(st, x, seen) for x in op[3]),
                             tuple(self._frz_op(st, x, seen) for x in op[4])) + op[5:]
        return tuple(self.freeze(st, x, seen) if isinstance(x, tuple) else x for x in op)

    def _stateful(self, st, t):
        """objects with an identity of their own (clients, contexts, services, stores): never snapshotted"""
        c = self.typeof(t, st)
        if c is not None and c.module.is_repo and not self.prog.is_subclass(c, 'oidcmsg.message.Message'):
            return True
        return t[0] == 'attr' and t[2] in ('_db', 'keyjar', 'issuer2rp', 'hash2issuer', 'state_db', '_service')

    def hobj(self, st, t):
        """HObj of a value, None if it has no abstract heap entry"""
        return st.heap.get(t)

    def overlay(self, st, t):
        """make sure a value has a heap entry -> (state, HObj)"""
        o = st.heap.get(t)
        if o is not None:
            return st, o
        if t[0] == 'obj':
            o = HObj(t[1], t[2], t[3], t[4], t[5])
        else:
            o = HObj('any', None, t, (), ())
        return st.sethobj(t, o), o

    def _catches(self, *names):
        for hs in self.handlers:
            for h in hs:
                for n in names:
                    if self.exc_sub(n, h):
                        return True
        return False

    def raise_(self, st, name, node=None, detail=None):
        exc = ('exc', name, detail)
        self.sink.append((st, exc))

    # lookup: -> [(state, value or None if absent)]
    def lookup(self, st, cont, key, need=False):
        cont_o = st.heap.get(cont)
        if cont_o is None and cont[0] == 'obj':
            cont_o = HObj(cont[1], cont[2], cont[3], cont[4], cont[5])
        if cont_o is None:
            return self._lookup_opaque(st, cont, key)
        return self._lookup_ops(st, cont, cont_o, key, len(cont_o.ops) - 1)

    def _lookup_opaque(self, st, cont, key):
        if cont[0] == 'glob' or cont[0] == 'gitem':
            g = self.glob_value(cont)
            if g is not None and g[0] == 'obj':
                r = self.lookup(st, g, key)
                return [(s, v) for s, v in r]
        if cont[0] == 'c':
            return [(st, None)]
        if cont[0] == 'comp' and cont[1] == 'dict' and len(cont[3]) == 1:
            r = self._lookup_comp(st, cont, key)
            if r is not None:
                return r
        ck = self.iter_base(undeep(cont))
        res = []
        for s, p in self.fork(st, ('in', key, ck)):
            res.append((s, ('item', self.ibase(cont), key) if p else None))
        return res

    def _lookup_comp(self, st, comp, key):
        """what is under a key of {k: f(v) for k, v in x.items() if p(k, v)}"""
        it = comp[3][0]
        if it[0] == 'view' and it[1] in ('items', 'keys'):
            it = it[2]
        ks = {kv[0] for facts, kv in comp[2] if len(kv) == 2}
        if len(ks) != 1 or any(len(kv) != 2 for _, kv in comp[2]):
            return None
        k = ks.pop()
        if k[0] != 'elem' or k[1] != it and (k[1][0] != 'obj' or k[1][3] != it):
            return None
        it = k[1]

        def entry(st, v):
            """[(state, value)] of the entry made for the key"""
            if v[0] == 'item' and v[2] == k:
                return [(s, x) for s, x in self.lookup(st, v[1], key) if x is not None]
            return [(st, replaced(v, k, key))]

        def present(st):
            return [s for s, x in self.lookup(st, it, key) if x is not None]

        # does the filter say whether the key is taken
        taken = []
        sure = True
        for facts, (_, v) in comp[2]:
            verdict = True
            for a, pol in facts:
                if a[0] == '=' and a[1] == k:
                    d = key[2] == pol[2] and key[1] == pol[1] if key[0] == 'c' else None
                elif key[0] == 'c' and a[0] in ('T', 'none', 'eq', 'in', 'isinst') and mentions(a, k):
                    d = self.decide(st, replaced(a, k, key))
                    d = None if d is None else d == pol
                else:
                    d = None
                if d is False:
                    verdict = False
                    break
                if d is None:
                    verdict = None
            if verdict is not False:
                taken.append((facts, v))
                sure = sure and verdict is True
        if not taken:
            return [(st, None)]
        if sure and len(taken) == 1:
            res = []
            for s, x in self.lookup(st, it, key):
                res.extend([(s, None)] if x is None else entry(s, taken[0][1]))
            return res
        res = []
        for s, p in self.fork(st, ('in', key, comp)):
            if not p:
                if len(comp[2]) == 1 and not comp[2][0][0]:
                    s = self.assume(s, ('in', key, it), False)
                if s is not None:
                    res.append((s, None))
                continue
            for facts, v in taken:
                for s2 in present(s):
                    for a, pol in facts:
                        if s2 is not None and a[0] in ('T', 'none', 'eq', 'in', 'isinst'):
                            s2 = self.assume(s2, replaced(a, k, key), pol)
                    if s2 is not None:
                        res.extend(entry(s2, v))
        return res

    def ibase(self, t):
        while t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'copy' and not t[2]:
            t = t[1][1]
        return t

    def _lookup_ops(self, st, cont, o, key, i):
        if o.kind in ('list', 'set') and i == len(o.ops) - 1:
            return self._lookup_list(st, cont, o, key)
        while i >= 0:
            op = o.ops[i]
            if op[0] in ('set', 'del'):
                d = self.same(st, op[1], key)
                if d is True:
                    return [(st, op[2] if op[0] == 'set' else None)]
                if d is None:
                    res = []
                    for s, p in self.fork(st, ('eq', op[1], key)):
                        if p:
                            res.append((s, op[2] if op[0] == 'set' else None))
                        else:
                            res.extend(self._lookup_ops(s, cont, o, key, i - 1))
                    return res
            elif op[0] == 'dflt':
                res = []
                for s, v in self._lookup_ops(st, cont, o, key, i - 1):
                    if v is not None:
                        res.append((s, v))
                        continue
                    for s2, p in self.fork(s, ('eq', op[1], key)):
                        res.append((s2, op[2] if p else None))
                return res
            elif op[0] == 'upd':
                res = []
                for s, v in self.lookup(st, op[1], key):
                    if v is not None:
                        res.append((s, v))
                    else:
                        res.extend(self._lookup_ops(s, cont, o, key, i - 1))
                return res
            elif op[0] == 'cnd':
                if self._touches(st, op, key):
                    res = []
                    for s, ops in self.resolve_cnd(st, op):
                        o2 = o._replace(ops=o.ops[:i] + ops)
                        res.extend(self._lookup_ops(s, cont, o2, key, len(o2.ops) - 1))
                    return res
            elif op[0] == 'clear':
                return [(st, None)]
            elif op[0] == 'hav':
                t = ('after', op[1])
                res = []
                for s, p in self.fork(st, ('in', key, t)):
                    res.append((s, ('item', t, key) if p else None))
                return res
            i -= 1
        if o.base is None:
            return [(st, None)]
        if o.base == cont or o.base not in st.heap:
            if o.base[0] == 'obj':
                return self.lookup(st, o.base, key)
            return self._lookup_opaque(st, o.base, key)
        return self.lookup(st, o.base, key)

    def _touches(self, st, op, key):
        for x in op[3] + op[4]:
            if x[0] in ('set', 'del', 'dflt'):
                if self.same(st, x[1], key) is not False:
                    return True
            elif x[0] == 'cnd':
                if self._touches(st, x, key):
                    return True
            else:
                return True
        return False

    def _lookup_list(self, st, cont, o, key):
        if key[0] == 'c' and isinstance(key[2], int):
            if o.base is None and all(op[0] == 'e' for op in o.ops):
                try:
                    return [(st, o.ops[key[2]][1])]
                except IndexError:
                    return [(st, None)]
            if key[2] == 0 and o.base is None and o.ops and o.ops[0][0] == 'e':
                return [(st, o.ops[0][1])]
            if o.base is not None and not o.ops:
                return [(st, ('item', o.base, key))]
        return [(st, ('item', self.freeze(st, cont), key))]

    def contains_key(self, st, key, cont):
        """-> [(state, bool)] for `key in cont`"""
        cont = self.strip_iter(cont)
        if cont[0] == 'tup':
            return self._in_elems(st, key, list(cont[1]))
        o = st.heap.get(cont)
        if o is None and cont[0] == 'obj':
            o = HObj(cont[1], cont[2], cont[3], cont[4], cont[5])
        if cont[0] in ('glob',) and o is None:
            g = self.glob_value(cont)
            if g is not None:
                if g[0] == 'tup':
                    return self._in_elems(st, key, list(g[1]))
                if g[0] == 'obj':
                    if len(g[4]) > 8 or key[0] == 'c':
                        if key[0] == 'c':
                            return self.contains_key(st, key, g)
                        return self.fork(st, ('in', self.freeze(st, key), cont))
                    return self.contains_key(st, key, g)
        if o is not None:
            if o.kind in ('list', 'set'):
                if o.base is None and all(op[0] == 'e' for op in o.ops):
                    return self._in_elems(st, key, [op[1] for op in o.ops])
                if not o.ops and o.base is not None:
                    return self.fork(st, ('in', key, o.base))
                if all(op[0] in ('e', 'ext', 'ins') for op in o.ops):
                    res, cur = [], [st]
                    for op in ((('ext', o.base),) if o.base is not None else ()) + o.ops:
                        nxt = []
                        for s in cur:
                            for s2, p in (self.contains_key(s, key, op[1]) if op[0] == 'ext' else
                                          self._in_elems(s, key, [op[-1]])):
                                (res if p else nxt).append((s2, True) if p else s2)
                        cur = nxt
                    return res + [(s, False) for s in cur]
                return self.fork(st, ('in', self.freeze(st, key), self.freeze(st, cont)))
            return [(s, v is not None) for s, v in self.lookup(st, cont, key)]
        fk = self.freeze(st, key)
        if cont[0] == 'c' and fk[0] == 'c':
            try:
                return [(st, fk[2] in cont[2])]
            except TypeError:
                return [(st, False)]
        return self.fork(st, ('in', fk, cont))

    def _in_elems(self, st, key, elems):
        key = self.freeze(st, key)
        if len(elems) > 10 and key[0] != 'c':
            return self.fork(st, ('in', key, ('tup', tuple(self.freeze(st, e) for e in elems))))
        res = []
        cur = [st]
        for e in elems:
            nxt = []
            for s in cur:
                for s2, p in self.fork(s, ('eq', key, self.freeze(s, e))):
                    if p:
                        res.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        res.extend((s, False) for s in cur)
        return res

    def strip_iter(self, t):
        while True:
            if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'keys' and not t[2]:
                t = t[1][1]
            elif t[0] == 'view' and t[1] == 'keys':
                t = t[2]
            elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
                    'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.frozenset',
                    'builtins.iter') and len(t[2]) == 1:
                t = t[2][0]
            else:
                return t

    def push_op(self, st, t, op, node=None):
        """append an operation to a container, noting it when others can see the container"""
        fresh = t[0] == 'ref'
        st, o = self.overlay(st, t)
        ops = o.ops
        if op[0] == 'set' and op[1][0] == 'c' and o.kind != 'list':
            # overwriting an earlier constant key that nothing in between can interfere with
            if ops and ops[-1][0] in ('set', 'del') and ops[-1][1] == op[1]:
                ops = ops[:-1]
        st = st.sethobj(t, o._replace(ops=ops + (op,)))
        return st

    # ------------------------------------------------------------------ globals
    def glob_value(self, t):
        """frozen value of a module level constant made of literals"""
        if t[0] != 'glob':
            return None
        if t in self._globcache:
            return self._globcache[t]
        self._globcache[t] = None
        modname, _, name = t[1].rpartition('.')
        mod = self.prog.module(modname)
        val = None
        if mod is not None:
            b = mod.bindings.get(name)
            if b and b[0] == 'assign' and b[1] is not None:
                val = self.literal(mod, b[1])
        self._globcache[t] = val
        return val

    def literal(self, mod, e, cls=None):
        """frozen value of a literal expression (names of other constants included), or None"""
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.List, ast.Set)):
            els = [self.literal(mod, x, cls) for x in e.elts]
            if any(x is None for x in els):
                return None
            return ('obj', 'list' if isinstance(e, ast.List) else 'set', None, None, tuple(('e', x) for x in els), ())
        if isinstance(e, ast.Tuple):
            els = [self.literal(mod, x, cls) for x in e.elts]
            if any(x is None for x in els):
                return None
            return ('tup', tuple(els))
        if isinstance(e, ast.Dict):
            ops = []
            for k, v in zip(e.keys, e.values):
                vv = self.literal(mod, v, cls)
                if k is None:
                    if vv is None:
                        return None
                    ops.append(('upd', vv))
                    continue
                kk = self.literal(mod, k, cls)
                if kk is None:
                    return None
                if vv is None:
                    vv = ('expr', mod.name, getattr(v, 'lineno', 0))
                ops.append(('set', kk, vv))
            return ('obj', 'dict', None, None, tuple(ops), ())
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.literal(mod, e.operand, cls)
            if v is not None and v[0] == 'c':
                return C(-v[2])
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.literal(mod, e.left, cls), self.literal(mod, e.right, cls)
            if a and b and a[0] == 'c' and b[0] == 'c':
                try:
                    return C(a[2] + b[2])
                except TypeError:
                    return None
            if a and b and a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1] == 'list':
                return ('obj', 'list', None, None, a[4] + b[4], ())
            if a and b and (a[0] in ('cat', 'ext') or b[0] in ('cat', 'ext') or
                            'str' in (a[1], b[1])):
                return cat([a, b])
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and cls is not None and e.id in cls.attrs:
                return self.literal(mod, cls.attrs[e.id], cls)
            r = self.prog.resolve_expr(mod, e)
            if r is None:
                return None
            if r[0] == 'const':
                v = self.literal(r[1], r[3]) if r[3] is not None else None
                if v is not None and v[0] != 'obj':
                    return v
                return v if v is not None else ('glob', r[1].name + '.' + r[2])
            return self.entity_term(r)
        if isinstance(e, ast.JoinedStr):
            return None
        if isinstance(e, ast.Call):
            fn = self.prog.resolve_expr(mod, e.func)
            if fn and fn[0] == 'ext' and fn[1] in ('builtins.dict',) and not e.args:
                ops = []
                for kw in e.keywords:
                    v = self.literal(mod, kw.value, cls)
                    if kw.arg is None or v is None:
                        return None
                    ops.append(('set', C(kw.arg), v))
                return ('obj', 'dict', None, None, tuple(ops), ())
            if fn and fn[0] == 'ext' and fn[1] in ('builtins.list', 'builtins.tuple', 'builtins.set',
                                                   'builtins.frozenset') and len(e.args) == 1:
                v = self.literal(mod, e.args[0], cls)
                if fn[1][9:] in ('set', 'frozenset') and v is not None and (v[0] == 'tup' or v[0] == 'obj' and v[1] in ('list', 'set') and
                                                                            v[3] is None and all(op[0] == 'e' for op in v[4])):
                    return ('obj', 'set', None, None, tuple(dict.fromkeys(('e', x) for x in v[1])) if v[0] == 'tup' else
                            tuple(dict.fromkeys(v[4])), ())
                return v
            args = [self.literal(mod, a, cls) for a in e.args]
            if fn and all(a is not None for a in args) and not e.keywords:
                return E_call(self.entity_term(fn), args)
            return None
        return None

    def entity_term(self, r):
        if r[0] == 'func':
            return self.func_term(r[1])
        if r[0] == 'cls':
            return ('cls', r[1].dotted)
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'ext':
            return C(CONST_EXT[r[1]]) if r[1] in CONST_EXT else ('ext', r[1])
        if r[0] == 'const':
            return self.const_term(r)
        return ('opq', str(r))

    def const_term(self, r):
        mod, name, expr = r[1], r[2], r[3]
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        if expr is not None:
            if not isinstance(expr, (ast.List, ast.Dict, ast.Set)):
                v = self.literal(mod, expr)
                if v is not None and v[0] in ('c', 'tup', 'cat', 'func', 'cls', 'ext', 'mod'):
                    return v
        return ('glob', mod.name + '.' + name)

    def func_term(self, f):
        t = ('func', f.dotted)
        self._funcs = getattr(self, '_funcs', {})
        self._funcs[t] = f
        return t

    def func_of(self, t):
        f = self._funcs.get(t)
        if f is None and t[0] == 'func':
            try:
                f = self._funcs[t] = self.prog.func(t[1])
            except AnalysisBroken:
                pass
        return f

    # ------------------------------------------------------------------ names
    def name(self, st, n):
        if n in st.env:
            return st.env[n]
        mod = self.frames[-1].module
        r = self.prog.resolve(mod, n)
        if r is None:
            if hasattr(builtins, n):
                v = getattr(builtins, n)
                if isinstance(v, (bool, type(None))):
                    return C(v)
                return ('ext', 'builtins.' + n)
            if n == '__name__':
                return C(mod.name)
            if n == '__file__':
                return ('sym', '__file__')
            return ('unbound', n)
        return self.entity_term(r)

    # ------------------------------------------------------------------ attributes
    def load_attr(self, st, b, name, node):
        """-> [(state, value)]"""
        k = b[0]
        if k == 'mod':
            r = self.prog.resolve_dotted(b[1], name)
            return [(st, self.entity_term(r))]
        if k == 'ext':
            full = b[1] + '.' + name
            return [(st, C(CONST_EXT[full]) if full in CONST_EXT else ('ext', full))]
        if k == 'tup' and self.cfg.fold and len(b[1]) in URL_PARTS:
            if name in URL_PARTS[len(b[1])]._fields:
                return [(st, b[1][URL_PARTS[len(b[1])]._fields.index(name)])]
            if name in ('geturl', '_replace'):
                return [(st, ('attr', b, name))]
        if (k == 'c' and not hasattr(b[2], name)) or (k == 'tup' and not hasattr((), name)) or (k != 'c' and k != 'ref' and st.facts.get(('none', b)) is True):
            self.raise_(st, 'builtins.AttributeError', node)
            return []
        o = st.heap.get(b)
        if o is None and k == 'obj':
            o = HObj(b[1], b[2], b[3], b[4], b[5])
        if o is not None:
            for n, v in reversed(o.attrs):
                if n == name:
                    if v is not None and v[0] == 'phi':
                        res = []
                        for s2, v2 in self.resolve_phi(st, v):
                            if v2 is not None:
                                res.append((s2, v2))
                            else:
                                o2 = o._replace(attrs=tuple(x for x in o.attrs if x[0] != name))
                                res.extend(self.load_attr(s2.sethobj(b, o2) if k != 'obj' else s2,
                                                          b if k != 'obj' else b[:5] + (o2.attrs,), name, node))
                        return res
                    return [(st, v)] if v is not None else []
        if self.cfg.given:
            g = self.cfg.given.get(('attr', b, name))
            if g is not None:
                return [(st, g)]
        if k == 'cls':
            try:
                c = self.prog.cls(b[1])
            except AnalysisBroken:
                return [(st, ('attr', b, name))]
            m = self.prog.find_method(c, name)
            if m is not None:
                if 'classmethod' in m.decs:
                    self.func_term(m)
                    return [(st, ('bound', b, m.dotted, self.func_term(m)))]
                return [(st, self.func_term(m))]
            return [(st, ('attr', b, name))]
        if k == 'super':
            m = self.prog.find_method(b[1], name, skip=b[2])
            if m is not None:
                return [(st, ('bound', b[3], m.dotted, self.func_term(m)))]
            return [(st, ('attr', ('sym', 'super'), name))]
        cls = self.typeof(b, st)
        if cls is not None:
            if name == 'client_get' and self.prog.is_subclass(cls, 'oidcrp.service.Service'):
                own = self.owner(b)
                oc = self.prog.cls(self.cfg.owner_cls)
                m = self.prog.find_method(oc, 'client_get')
                if m is None:
                    raise AnalysisBroken('client_get is gone')
                return [(st, ('bound', own, m.dotted, self.func_term(m)))]
            if name == '__class__':
                return [(st, ('cls', cls.dotted))]
            m = self.prog.find_method(cls, name)
            if m is not None and cls.module.is_repo:
                if 'property' in m.decs:
                    return self.call_func(st, m, b, [], [], node)
                if 'staticmethod' in m.decs:
                    return [(st, self.func_term(m))]
                if m.module.is_repo:
                    return [(st, ('bound', b, m.dotted, self.func_term(m)))]
            ca = self.prog.class_attr(cls, name)
            if ca is not None:
                fz = self.cfg.const_attrs.get((b, name))
                if fz is not None:
                    return [(st, fz)]
                if name in self.cfg.class_consts:
                    v = self.literal(ca[0].module, ca[1], ca[0])
                    if v is not None and self._same_in_subclasses(cls, name, v):
                        return [(st, v)]
        res = []
        if self._catches_exactly('builtins.AttributeError') and self._may_lack(st, b, name, cls):
            for s, p in self.fork(st, ('hasattr', self.freeze(st, b), name)):
                if p:
                    res.append((s, ('attr', self._abase(st, b, name), name)))
                else:
                    self.raise_(s, 'builtins.AttributeError', node)
            return res
        return [(st, ('attr', self._abase(st, b, name), name))]

    def _same_in_subclasses(self, cls, name, v):
        for c in self.prog.subclasses(cls.dotted):
            ca = self.prog.class_attr(c, name)
            if ca is None or self.literal(ca[0].module, ca[1], ca[0]) != v:
                return False
        return True

    def _abase(self, st, b, name):
        o = st.heap.get(b)
        if name in self.CONTAINER:
            return b        # a copy is changed and read by itself
        if o is not None and b[0] == 'ref':
            if o.base is not None and o.kind in ('any', 'inst') and not o.attrs:
                return o.base if o.base not in st.heap else self._abase(st, o.base, name)
        return b

    def _may_lack(self, st, b, name, cls):
        if b[0] in ('c', 'tup', 'cat'):
            return not hasattr(b[2] if b[0] == 'c' else () if b[0] == 'tup' else '', name)
        o = st.heap.get(b)
        kind = {'dict': dict, 'list': list, 'set': set}.get(b[1] if b[0] == 'obj' else o.kind if o is not None else None)
        if kind is not None:
            return not hasattr(kind, name)
        if cls is not None:
            return name not in self.class_attr_names(cls)
        return True

    def owner(self, s):
        if s[0] == 'item' and s[1][0] == 'attr' and s[1][2] == '_service':
            return s[1][1]
        if s[0] == 'item' and s[1][0] == 'sym':
            return ('owner', s[1])
        return ('owner', s)

    def _catches_exactly(self, *names):
        """a handler that names the exception (or an ancestor below Exception)"""
        for hs in self.handlers:
            for h in hs:
                if h in ('builtins.Exception', 'builtins.BaseException'):
                    continue
                for n in names:
                    if self.exc_sub(n, h):
                        return True
        return False

    # ------------------------------------------------------------------ exceptions
    def exc_sub(self, a, b):
        if a == b:
            return True
        if b in ('builtins.BaseException', 'builtins.Exception'):
            return True
        pa = self._exc_anc(a)
        return b in pa

    def _exc_anc(self, a):
        cache = self.__dict__.setdefault('_exccache', {})
        if a in cache:
            return cache[a]
        res = {a}
        cache[a] = res
        if a.startswith('builtins.'):
            ty = getattr(builtins, a[9:], None)
            if isinstance(ty, type):
                for c in ty.__mro__:
                    res.add('builtins.' + c.__name__)
            if a in ('builtins.IOError', 'builtins.EnvironmentError'):
                res.add('builtins.OSError')
            return res
        known = {'binascii.Error': 'builtins.ValueError', 'json.JSONDecodeError': 'builtins.ValueError', 'json.decoder.JSONDecodeError': 'builtins.ValueError'}
        if a in known:
            res |= self._exc_anc(known[a])
            return res
        try:
            c = self.prog.cls(a)
        except AnalysisBroken:
            c = None
        if c is not None:
            for m in self.prog.mro(c):
                res.add(m.dotted)
            for e in self.prog.ext_bases(c):
                res |= self._exc_anc(e)
        res.add('builtins.Exception')
        return res

    def exc_name(self, t):
        if t[0] == 'cls':
            return t[1]
        if t[0] == 'ext':
            return {'builtins.IOError': 'builtins.OSError'}.get(t[1], t[1])
        return 'builtins.Exception'

    def opaque_raises(self, st, ev_term, name):
        """an unknown call may raise whatever somebody around is prepared to catch"""
        if (name in QUIET or name in self.cfg.never_raise) and name not in self.cfg.may_raise:
            return
        types = []
        for hs in reversed(self.handlers):
            for h in hs:
                if h not in types:
                    types.append(h)
        if types and name in self.cfg.throws:
            st = st.event(Event('threw', name, None, None, (), (), ev_term, self.callstack[-1], 0))
        for h in types:
            self.sink.append((st, ('exc', h, ev_term)))
        for n in self.cfg.may_raise.get(name, ()):
            if not any(self.exc_sub(n, h) for h in types):
                self.sink.append((st, ('exc', n, ev_term)))

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st):
        self.nsteps += 1
        if self.nsteps > self.cfg.max_steps:
            raise Limit('more than {} steps in {}'.format(self.cfg.max_steps, self.callstack[-1]))
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return self.ev_generic(node, st)
        return m(node, st)

    def ev_generic(self, node, st):
        subs = [n for n in ast.iter_child_nodes(node) if isinstance(n, ast.expr)]
        return [(s, ('expr', type(node).__name__) + tuple(self.freeze(s, v) for v in vs))
                for s, vs in self.ev_list(subs, st)]

    def ev_list(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                self.roots.append(vs)
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
                self.roots.pop()
            res = nxt
        return res

    def ev_Constant(self, node, st):
        return [(st, C(node.value))]

    def ev_Name(self, node, st):
        v = self.name(st, node.id)
        if v[0] == 'phi':
            return self.resolve_phi(st, v)
        return [(st, v)]

    def ev_NamedExpr(self, node, st):
        return [(s.setenv(node.target.id, v), v) for s, v in self.ev(node.value, st)]

    def ev_Attribute(self, node, st):
        res = []
        for s, b in self.ev(node.value, st):
            res.extend(self.load_attr(s, b, node.attr, node))
        return res

    def ev_Starred(self, node, st):
        return [(s, ('star', v)) for s, v in self.ev(node.value, st)]

    def ev_Await(self, node, st):
        return self.ev(node.value, st)

    def ev_Tuple(self, node, st):
        return [(s, ('tup', tuple(vs))) for s, vs in self.ev_list(node.elts, st)]

    def ev_List(self, node, st):
        return self._mk_list(node, st, 'list')

    def ev_Set(self, node, st):
        return self._mk_list(node, st, 'set')

    def _mk_list(self, node, st, kind):
        res = []
        for s, vs in self.ev_list(node.elts, st):
            ops = tuple(('ext', v[1]) if v[0] == 'star' else ('e', v) for v in vs)
            res.append(self.new(s, node, kind, ops=ops))
        return res

    def ev_Dict(self, node, st):
        nodes = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        res = []
        for s, vs in self.ev_list(nodes, st):
            ops, i = [], 0
            for k in node.keys:
                if k is None:
                    ops.append(('upd', self.freeze(s, vs[i])))
                    i += 1
                else:
                    ops.append(('set', self.freeze(s, vs[i]), vs[i + 1]))
                    i += 2
            res.append(self.new(s, node, 'dict', ops=ops))
        return res

    def ev_IfExp(self, node, st):
        res = []
        for s, p in self.cond(node.test, st):
            res.extend(self.ev(node.body if p else node.orelse, s))
        return res

    def ev_BoolOp(self, node, st):
        cur = [(st, None)]
        res = []
        last = len(node.values) - 1
        for i, n in enumerate(node.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(n, s):
                    if i == last:
                        res.append((s2, v))
                        continue
                    for s3, p in self.truth(s2, v):
                        if p == isinstance(node.op, ast.Or):
                            res.append((s3, v))
                        else:
                            nxt.append((s3, v))
            cur = nxt
        return res

    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return [(s, C(p)) for s, p in self.cond(node, st)]
        res = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.USub) and v[0] == 'c':
                res.append((s, C(-v[2])))
            else:
                res.append((s, ('op', type(node.op).__name__, (self.freeze(s, v),))))
        return res

    def ev_Compare(self, node, st):
        return [(s, C(p)) for s, p in self.cond(node, st)]

    def ev_BinOp(self, node, st):
        res = []
        for s, (a, b) in self.ev_list([node.left, node.right], st):
            res.extend(self.binops(s, node.op, a, b, node))
        return res

    def binops(self, s, op, a, b, node):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and (self.is_set(s, a) or self.is_set(s, b)):
            r = self.set_op(s, type(op).__name__, a, b, node)
            if r is not None:
                return r
        return [self.binop(s, op, a, b, node)]

    def binop(self, s, op, a, b, node):
        if isinstance(op, ast.Mod) and a[0] == 'c' and isinstance(a[2], str):
            return s, self.percent(s, a[2], b)
        if isinstance(op, ast.Add):
            la, lb = s.heap.get(a), s.heap.get(b)
            if la is not None and lb is not None and la.kind == lb.kind == 'list':
                oa = (('ext', la.base),) if la.base is not None else ()
                ob = (('ext', lb.base),) if lb.base is not None else ()
                return self.new(s, node, 'list', ops=oa + la.ops + ob + lb.ops)
            if la is not None and la.kind == 'list' and la.base is None or lb is not None and lb.kind == 'list' and lb.base is None:
                oa = la.ops if la is not None and la.base is None else (('ext', self.freeze(s, a)),)
                ob = lb.ops if lb is not None and lb.base is None else (('ext', self.freeze(s, b)),)
                return self.new(s, node, 'list', ops=oa + ob)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return s, C(a[2] + b[2])
                except TypeError:
                    pass
            if any(x[0] == 'cat' or (x[0] == 'c' and x[1] == 'str') for x in (a, b)):
                return s, cat([self.freeze(s, a), self.freeze(s, b)])
            fa, fb = self.freeze(s, a), self.freeze(s, b)
            return s, ('op', 'Add', tuple(sorted((fa, fb), key=repr)) if fa[0] != 'tup' else (fa, fb))
        if isinstance(op, ast.BitOr):
            la, lb = s.heap.get(a), s.heap.get(b)
            if (la is not None and la.kind == 'dict') or (lb is not None and lb.kind == 'dict'):
                return self.new(s, node, 'dict', ops=(('upd', self.freeze(s, a)), ('upd', self.freeze(s, b))))
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
            try:
                v = {ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}.get(type(op))
                if v:
                    return s, C(v(a[2], b[2]))
            except Exception:
                pass
        if isinstance(op, ast.Mult) and 'str' in (a[1] if a[0] == 'c' else '', b[1] if b[0] == 'c' else ''):
            if a[0] == 'c' and b[0] == 'c':
                return s, C(a[2] * b[2])
        return s, ('op', type(op).__name__, (self.freeze(s, a), self.freeze(s, b)))

    def percent(self, s, fmt, b):
        import re
        parts = re.split(r'(%%|%\([^)]*\)[sdr]|%[sdr])', fmt)
        vals = list(b[1]) if b[0] == 'tup' else [b]
        out, i = [], 0
        for p in parts:
            if p == '%%':
                out.append(C('%'))
            elif p.startswith('%(') and p[-1] in 'sdr':
                key = p[2:p.index(')')]
                r = self.lookup(s, b, C(key))
                out.append(r[0][1] if len(r) == 1 and r[0][1] is not None else ('item', self.freeze(s, b), C(key)))
            elif p in ('%s', '%d', '%r'):
                if i < len(vals):
                    out.append(self.freeze(s, vals[i]))
                i += 1
            elif '%' in p:
                return ('op', 'Mod', (C(fmt), self.freeze(s, b)))
            elif p:
                out.append(C(p))
        return cat([self.strterm(x) for x in out])

    def strterm(self, t):
        if t[0] == 'c' and not isinstance(t[2], str):
            return C(str(t[2]))
        if t[0] == 'call' and t[1] == ('ext', 'builtins.str') and len(t[2]) == 1:
            return t[2][0]
        return t

    def ev_JoinedStr(self, node, st):
        nodes = [v for v in node.values]
        res = []
        for s, vs in self.ev_list(nodes, st):
            res.append((s, cat([self.strterm(self.freeze(s, v)) for v in vs])))
        return res

    def ev_FormattedValue(self, node, st):
        if node.format_spec is not None:
            return [(s, ('fmt', self.freeze(s, v[0]), self.freeze(s, v[1])))
                    for s, v in self.ev_list([node.value, node.format_spec], st)]
        return self.ev(node.value, st)

    def ev_Lambda(self, node, st):
        return [self._closure(node, st)]

    def _closure(self, node, st):
        used = self.prog.captured.get(node)
        if used is None:
            used = self.prog.captured[node] = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        env = {k: v for k, v in st.env.items() if k in used}
        base = ('closure', self.callstack[-1], node.lineno, node.col_offset)
        num = self.captures.setdefault((base, id(node), frozenset(env.items())), len(self.captures))
        key = base + (num,)
        if key not in self.closures:
            f = Func(self.frames[-1].module, node, None, getattr(node, 'name', '<lambda>'))
            self.closures[key] = (f, self.frames[-1], env)
        return st, key

    def ev_Subscript(self, node, st):
        res = []
        if isinstance(node.slice, ast.Slice):
            parts = [p for p in (node.slice.lower, node.slice.upper, node.slice.step)]
            for s, b in self.ev(node.value, st):
                for s2, vs in self.ev_list([p for p in parts if p is not None], s):
                    it = iter(vs)
                    v3 = tuple(self.freeze(s2, next(it)) if p is not None else NONE for p in parts)
                    if b[0] == 'c' and all(x[0] == 'c' for x in v3):
                        try:
                            res.append((s2, C(b[2][slice(*[x[2] for x in v3])])))
                            continue
                        except TypeError:
                            pass
                    res.append((s2, ('slice', self.freeze(s2, b)) + v3))
            return res
        for s, (b, k) in self.ev_list([node.value, node.slice], st):
            res.extend(self.load_item(s, b, k, node))
        return res

    def load_item(self, st, b, k, node):
        k = self.freeze(st, k)
        if b[0] == 'tup' and k[0] == 'c' and isinstance(k[2], int):
            try:
                return [(st, b[1][k[2]])]
            except IndexError:
                self.raise_(st, 'builtins.IndexError', node)
                return []
        if b[0] == 'tup' and k[0] == 'c':
            self.raise_(st, 'builtins.TypeError', node)
            return []
        if b[0] == 'c' and k[0] == 'c':
            try:
                return [(st, C(b[2][k[2]]))]
            except Exception:
                self.raise_(st, 'builtins.TypeError', node)
                return []
        cls = self.typeof(b, st)
        if cls is not None and cls.module.is_repo:
            m = self.prog.find_method(cls, '__getitem__')
            if m is not None and m.module.is_repo:
                return self.call_func(st, m, b, [k], [], node)
        exc = 'builtins.IndexError' if k[0] == 'c' and isinstance(k[2], int) else 'builtins.KeyError'
        o = st.heap.get(b)
        plain = o is None and b[0] not in ('obj', 'glob', 'gitem')
        if plain:
            if b[0] == 'c':
                self.raise_(st, 'builtins.TypeError', node)
                return []
            if self._catches_exactly('builtins.TypeError') and self.decide(st, ('none', b)) is None:
                pass
            if not self._catches(exc) or (not self._catches_exactly(exc) and self.cfg_noexc()):
                s = self.assume(st, ('in', k, self.iter_base(b)), True)
                if s is None:
                    self.raise_(st, exc, node)
                    return []
                return [(s, ('item', self.ibase(b), k))]
        res = []
        for s, v in self.lookup(st, b, k):
            if v is not None:
                res.append((s, v))
            else:
                self.raise_(s, exc, node)
        return res

    def cfg_noexc(self):
        return False

    # comprehension ------------------------------------------------------------------
    def ev_ListComp(self, node, st):
        return self._comp(node, st, 'list', node.elt, None)

    def ev_SetComp(self, node, st):
        return self._comp(node, st, 'set', node.elt, None)

    def ev_GeneratorExp(self, node, st):
        return self._comp(node, st, 'gen', node.elt, None)

    def ev_DictComp(self, node, st):
        return self._comp(node, st, 'dict', node.key, node.value)

    def _comp(self, node, st, kind, elt, val):
        saved = dict(st.env)
        gen = node.generators[0]
        res = []
        for s, it in [r for s0, it0 in self.ev(gen.iter, st) for r in self.expand(s0, it0)]:
            seq = self.iterate(s, it)
            if seq is not None and len(seq) <= self.cfg.unroll_max:
                # known elements
                cur = self._known_comp(node.generators, seq, [elt] + ([val] if val is not None else []), s, [])
            else:
                cur = None
            if cur is not None:
                for s1, acc in cur:
                    s1 = s1.clone()
                    s1.env = saved
                    if kind == 'dict':
                        res.append(self.new(s1, node, 'dict', ops=[('set', self.freeze(s1, a), b) for a, b in acc]))
                    else:
                        res.append(self.new(s1, node, 'set' if kind == 'set' else 'list', ops=[('e', a[0]) for a in acc]))
                continue
            # unknown elements: one symbolic element each
            saved_sink, self.sink = self.sink, []
            saved_h, self.handlers = self.handlers, []
            iters = []
            cur = [s]
            for g in node.generators:
                nxt = []
                for s1 in cur:
                    for s2, it2 in (self.ev(g.iter, s1) if g is not gen else [(s1, it)]):
                        ft = self.freeze(s2, it2)
                        el = self.elem_of(s2, it2, 1)
                        iters.append(ft)
                        for s3 in self.bind(g.target, el, s2):
                            conds = [(s3, True)]
                            for c in g.ifs:
                                conds = [y for x, p in conds for y in (self.cond(c, x) if p else [(x, False)])]
                            nxt.extend(x for x, p in conds if p)
                cur = nxt
            alts = set()
            evs = []
            for s1 in cur:
                for s2, vs in self.ev_list([elt] + ([val] if val is not None else []), s1):
                    new = frozenset((k, v) for k, v in s2.facts.items() if s.facts.get(k) != v)
                    alts.add((tuple(sorted(new, key=repr)), tuple(self.freeze(s2, v) for v in vs)))
                    for e, ef in list(zip(s2.events, s2.efacts))[len(s.events):]:
                        if (e, ) not in [(x[0],) for x in evs]:
                            evs.append((e, ef))
            self.sink = saved_sink
            self.handlers = saved_h
            t = ('comp', kind, tuple(sorted(alts, key=repr)), tuple(dict.fromkeys(iters)))
            s = s.clone()
            for e, ef in evs:
                s.events = s.events + (e,)
                s.efacts = s.efacts + (ef,)
            s.env = saved
            if kind == 'dict':
                res.append(self.new(s, node, 'dict', base=t))
            elif kind == 'gen':
                res.append((s, t))
            else:
                res.append(self.new(s, node, kind, base=t))
        return res

    def _known_comp(self, gens, seq, exprs, st, acc):
        """[(state, values)] of a comprehension over known elements, None when the elements of an inner one are not known"""
        gen = gens[0]
        cur = [(st, acc)]
        for el in seq:
            nxt = []
            for s1, acc in cur:
                for s2 in self.bind(gen.target, el, s1):
                    conds = [(s2, True)]
                    for c in gen.ifs:
                        conds = [y for x, p in conds for y in (self.cond(c, x) if p else [(x, False)])]
                    for s3, p in conds:
                        if not p:
                            nxt.append((s3, acc))
                        elif len(gens) == 1:
                            nxt.extend((s4, acc + [tuple(vs)]) for s4, vs in self.ev_list(exprs, s3))
                        else:
                            for s4, it in [r for s0, it0 in self.ev(gens[1].iter, s3) for r in self.expand(s0, it0)]:
                                inner = self.iterate(s4, it)
                                if inner is None or len(inner) > self.cfg.unroll_max:
                                    return None
                                more = self._known_comp(gens[1:], inner, exprs, s4, acc)
                                if more is None:
                                    return None
                                nxt.extend(more)
            cur = nxt
            if len(cur) > self.cfg.max_states:
                raise Limit('comprehension')
        return cur

    # iteration -----------------------------------------------------------------------
    def iterate(self, st, it):
        """list of known elements, or None"""
        if it[0] == 'tup':
            return list(it[1])
        if it[0] == 'c' and isinstance(it[2], (str, bytes)):
            return [C(x) for x in it[2]] if len(it[2]) <= 5 else None
        if it[0] == 'glob':
            g = self.glob_value(it)
            if g is not None and len(g[4] if g[0] == 'obj' else g[1]) <= self.cfg.unroll_max:
                return self.iterate(st, g)
            return None
        if it[0] == 'view':
            base = it[2]
            o = st.heap.get(base)
            if o is None and base[0] == 'obj':
                o = HObj(base[1], base[2], base[3], base[4], base[5])
            if o is None and base[0] == 'glob':
                g = self.glob_value(base)
                if g is None or g[0] != 'obj' or len(g[4]) > self.cfg.unroll_max:
                    return None
                o = HObj(g[1], g[2], g[3], g[4], g[5])
            if o is None or o.base is not None or o.kind in ('list', 'set'):
                return None
            d = {}
            for op in o.ops:
                if op[0] == 'set' and op[1][0] == 'c':
                    d[op[1]] = op[2]
                elif op[0] == 'del' and op[1][0] == 'c':
                    d.pop(op[1], None)
                else:
                    return None
            if it[1] == 'items':
                return [('tup', (a, b)) for a, b in d.items()]
            if it[1] == 'values':
                return list(d.values())
            return list(d)
        if it[0] == 'call' and it[1] == ('ext', 'builtins.range') and all(is_const(x) for x in it[2]) and not it[3]:
            try:
                rng = range(*[x[2] for x in it[2]])
            except (TypeError, ValueError):
                return None
            return [C(x) for x in rng] if len(rng) <= self.cfg.unroll_max else None
        if it[0] == 'call' and it[1] == ('ext', 'builtins.enumerate') and it[2]:
            r = self.iterate(st, it[2][0])
            start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', C(0))
            if r is None or not is_const(start):
                return None
            return [('tup', (C(start[2] + i), x)) for i, x in enumerate(r)]
        if it[0] == 'call' and it[1] == ('ext', 'builtins.zip') and it[2]:
            rs = [self.iterate(st, a) for a in it[2]]
            return None if any(r is None for r in rs) else [('tup', t) for t in zip(*rs)]
        if it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in (
                'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.reversed') and len(it[2]) == 1:
            r = self.iterate(st, it[2][0])
            if r is not None and it[1][1] == 'builtins.reversed':
                r = r[::-1]
            return r
        o = st.heap.get(it)
        if o is None and it[0] == 'obj':
            o = HObj(it[1], it[2], it[3], it[4], it[5])
        if o is None and it[0] == 'call' and it[1][0] in ('meth', 'func'):
            n = self.known_len(st, it)
            if n is None and it[1][0] == 'func':
                n = self.arity(it[1])
            if n is not None:
                return [('item', it, C(k)) for k in range(n)]
        if o is not None:
            if o.kind in ('list', 'set'):
                if o.base is None and all(op[0] == 'e' for op in o.ops):
                    els = [op[1] for op in o.ops]
                    return els if o.kind == 'list' else els[::-1]      # a set is in no order, so not in this one
                if o.base is not None and not o.ops and o.base[0] in ('tup', 'obj'):
                    return self.iterate(st, o.base)
                return None
            return self.iterate(st, ('view', 'keys', it))
        return None

    def arity(self, fv):
        """the length of the tuples that a function not looked into returns"""
        f = self.func_of(fv)
        if f is None or isinstance(f.node, ast.Lambda) or self.yields(f):
            return None
        rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
        if rets and all(isinstance(x, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.elts) for x in rets) and \
                len({len(x.elts) for x in rets}) == 1 and isinstance(f.node.body[-1], ast.Return):
            return len(rets[0].elts)
        return None

    def known_len(self, st, it):
        n = E_call(('ext', 'builtins.len'), (it,))
        for a, p in st.facts.items():
            if p and a[0] == 'eq' and n in a[1:]:
                k = a[2] if a[1] == n else a[1]
                if k[0] == 'c' and isinstance(k[2], int) and k[2] <= self.cfg.unroll_max:
                    return k[2]
        return None

    def elem_of(self, st, it, i):
        """a symbolic element of an unknown collection"""
        if it[0] == 'view':
            base = self.freeze(st, it[2])
            key = ('elem', base, i)
            o = st.heap.get(it[2])
            ib = base
            if it[1] == 'items':
                return ('tup', (key, ('item', self.ibase(ib), key)))
            if it[1] == 'values':
                return ('item', self.ibase(ib), key)
            return key
        if it[0] == 'call' and it[1] == ('ext', 'builtins.enumerate') and it[2]:
            return ('tup', (('idx', self.freeze(st, it[2][0]), i), self.elem_of(st, it[2][0], i)))
        if it[0] == 'call' and it[1] == ('ext', 'builtins.zip'):
            return ('tup', tuple(self.elem_of(st, a, i) for a in it[2]))
        if it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in (
                'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.set',
                'builtins.reversed') and len(it[2]) == 1:
            return self.elem_of(st, it[2][0], i)
        return ('elem', self.iter_base(self.freeze(st, it)), i)

    # conditions ----------------------------------------------------------------------
    def cond(self, node, st):
        """-> [(state, bool)]"""
        if isinstance(node, ast.BoolOp):
            isor = isinstance(node.op, ast.Or)
            res, cur = [], [st]
            for n in node.values:
                nxt = []
                for s in cur:
                    for s2, p in self.cond(n, s):
                        if p == isor:
                            res.append((s2, p))
                        else:
                            nxt.append(s2)
                cur = nxt
            res.extend((s, not isor) for s in cur)
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not p) for s, p in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare):
            res = []
            for s, vs in self.ev_list([node.left] + node.comparators, st):
                cur = [(s, True)]
                for i, op in enumerate(node.ops):
                    nxt = []
                    for s2, p in cur:
                        if not p:
                            nxt.append((s2, False))
                        else:
                            nxt.extend(self.compare(s2, op, vs[i], vs[i + 1], node))
                    cur = nxt
                res.extend(cur)
            return res
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                'isinstance', 'callable', 'hasattr', 'bool', 'any', 'all') and node.func.id not in st.env:
            if node.func.id == 'bool' and len(node.args) == 1:
                return self.cond(node.args[0], st)
            if node.func.id == 'isinstance' and len(node.args) == 2:
                res = []
                for s, (v, ty) in self.ev_list(node.args, st):
                    tys = list(ty[1]) if ty[0] == 'tup' else [ty]
                    cur = [s]
                    fv = self.freeze(s, v)
                    for t in tys:
                        nxt = []
                        for s2 in cur:
                            n = t[1] if t[0] in ('ext', 'cls') else str(t)
                            for s3, p in self.fork(s2, ('isa', fv, n)):
                                if p:
                                    res.append((s3, True))
                                else:
                                    nxt.append(s3)
                        cur = nxt
                    res.extend((s2, False) for s2 in cur)
                return res
        res = []
        for s, v in self.ev(node, st):
            res.extend(self.truth(s, v))
        return res

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, p != neg) for s, p in self.contains_key(st, a, b)]
        if isinstance(op, (ast.LtE, ast.GtE)) and (self.is_set(st, a) or self.is_set(st, b)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            return self.written_out(st, 'all(__x in __b for __x in __a)', {'__a': a, '__b': b}, node, cond=True)
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((fa, fb), (fb, fa)):
                # the beginning or the end of a text
                if x[0] == 'slice' and x[4] == NONE and y[0] == 'c' and isinstance(y[2], str) and y[2]:
                    n = len(y[2])
                    how = 'startswith' if x[2] in (NONE, C(0)) and x[3] == C(n) else \
                        'endswith' if x[2] == C(-n) and x[3] == NONE else None
                    if how:
                        neg = isinstance(op, ast.NotEq)
                        return [(s, p != neg) for s, p in self.written_out(
                            st, '__x.{}(__y)'.format(how), {'__x': x[1], '__y': y}, node, cond=True)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if fb == NONE:
                r = self.fork(st, ('none', fa))
            elif fa == NONE:
                r = self.fork(st, ('none', fb))
            else:
                r = self.fork(st, ('eq', fa, fb)) if not (a[0] == 'ref' or b[0] == 'ref') else (
                    [(st, a == b)])
            return [(s, p != neg) for s, p in r]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if fb == NONE:
                r = self.fork(st, ('none', fa))
            elif fa == NONE:
                r = self.fork(st, ('none', fb))
            else:
                r = self.fork(st, ('eq', fa, fb))
            return [(s, p != neg) for s, p in r]
        if isinstance(op, ast.Lt):
            return self.fork(st, ('lt', fa, fb))
        if isinstance(op, ast.Gt):
            return self.fork(st, ('lt', fb, fa))
        if isinstance(op, ast.LtE):
            return [(s, not p) for s, p in self.fork(st, ('lt', fb, fa))]
        if isinstance(op, ast.GtE):
            return [(s, not p) for s, p in self.fork(st, ('lt', fa, fb))]
        return self.fork(st, ('T', ('op', type(op).__name__, (fa, fb))))

    # ------------------------------------------------------------------ calls
    def is_logger(self, node):
        """logger.debug(...) and the like"""
        if isinstance(node.func, ast.Attribute) and node.func.attr in LOG:
            v = node.func.value
            mod = self.frames[-1].module
            if isinstance(v, ast.Name):
                r = self.prog.resolve(mod, v.id)
                if r and r[0] == 'const' and isinstance(r[3], ast.Call):
                    fn = self.prog.resolve_expr(r[1], r[3].func)
                    return fn == ('ext', 'logging.getLogger')
                if r == ('mod', 'logging'):
                    return True
        return False

    def ev_Call(self, node, st):
        if self.is_logger(node):
            return [(st, NONE)]
        if isinstance(node.func, ast.Name) and node.func.id not in st.env:
            n = node.func.id
            if n in ('isinstance',):
                return [(s, C(p)) for s, p in self.cond(node, st)]
            if n == 'super':
                f = self.frames[-1]
                if f.cls is not None and f.node.args.args:
                    me = st.env.get(f.node.args.args[0].arg)
                    if me is not None and me[0] == 'phi':
                        me = ('sym', 'self')
                    mc = self.typeof(me, st) if me is not None else None
                    return [(st, ('super', mc or f.cls, f.cls, me))]
        res = []
        for s, fv in self.ev(node.func, st):
            argnodes = list(node.args) + [k.value for k in node.keywords]
            self.roots.append([fv])
            lst = self.ev_list(argnodes, s)
            self.roots.pop()
            for s2, vs in lst:
                pos = []
                for v in vs[:len(node.args)]:
                    if v[0] == 'star':
                        known = self.iterate(s2, v[1])
                        if known is not None:
                            pos.extend(known)
                        else:
                            pos.append(v)
                    else:
                        pos.append(v)
                kws = []
                for k, v in zip(node.keywords, vs[len(node.args):]):
                    pairs = self.iterate(s2, ('view', 'items', v)) if k.arg is None and v[0] in ('ref', 'obj') else None
                    if pairs is not None and all(p[1][0][0] == 'c' for p in pairs):
                        kws.extend((p[1][0][2], p[1][1]) for p in pairs)
                    else:
                        kws.append((k.arg, v))
                self.roots.append([fv] + vs)
                res.extend(self.call(s2, fv, pos, kws, node))
                self.roots.pop()
        return res

    def call(self, st, fv, pos, kws, node):
        k = fv[0]
        if k == 'func':
            f = self.func_of(fv)
            return self.call_func(st, f, None, pos, kws, node)
        if k == 'bound':
            f = self.func_of(fv[3])
            return self.call_func(st, f, fv[1], pos, kws, node)
        if k == 'closure':
            f, frame, env = self.closures[fv]
            if frame is self.frames[-1]:
                env = {**env, **st.env}         # variables are looked up when the function is called
            if self.yields(f):
                f = self.eager(f)
            if self.callstack.count(f.dotted) >= 3 or len(self.callstack) > self.cfg.depth + 3:
                return self.opaque_call(st, fv, None, pos, kws, node, name=self._simple(fv))
            return self.inline(st, f, None, pos, kws, node, closure_env={**env, f.name: fv})
        if k == 'partial':
            return self.call(st, fv[1], list(fv[2]) + list(pos), [(n, v) for n, v in fv[3] if n not in dict(kws)] + list(kws), node)
        if k == 'cls':
            return self.construct(st, fv, pos, kws, node)
        if k == 'ext':
            return self.call_ext(st, fv, pos, kws, node)
        if k == 'attr':
            if self.is_message_cls(fv):
                return self.construct(st, fv, pos, kws, node)
            return self.call_method(st, fv[1], fv[2], pos, kws, node)
        return self.opaque_call(st, fv, None, pos, kws, node, name=self._simple(fv))

    def _simple(self, fv):
        if fv[0] in ('attr', 'meth'):
            return fv[2]
        if fv[0] in ('func', 'ext', 'cls'):
            return fv[1].split('.')[-1]
        if fv[0] == 'item':
            return '[]'
        if fv[0] == 'bound':
            return fv[2].split('.')[-1]
        return fv[0]

    def _base_call(self, st, f, self_val, pos):
        """The implementation of a base class is called from the one that overrides it (or from a helper of that one)."""
        me = self_val if self_val is not None else pos[0] if pos else None
        for fr, env in zip(reversed(self.frames), (st.env,) + tuple(reversed(st.stack))):
            if me is None or all(v != me for v in env.values()):
                return False
            if fr.name == f.name and fr.cls is not None:
                return fr.dotted != f.dotted
        return False

    def call_func(self, st, f, self_val, pos, kws, node):
        name = f.name
        dotted = f.dotted
        opaque = False
        if not f.module.is_repo:
            opaque = name not in self.cfg.inline_deps
        if name in self.cfg.opaque or dotted in self.cfg.opaque:
            opaque = True
        if dotted in self.cfg.inline or name in self.cfg.inline:
            opaque = False
        if opaque and self.cfg.inline_base and f.module.is_repo and f.cls is not None and self._base_call(st, f, self_val, pos):
            opaque = False
        if not opaque:
            if self.callstack.count(dotted) >= 1 or len(self.callstack) > self.cfg.depth:
                opaque = True
        gen = not opaque and self.yields(f)
        if gen:
            want = self.lazy[1] if self.lazy is not None and node is self.lazy[0] else None
            decs = f.decs - {'staticmethod', 'classmethod'}
            if gen == 'odd' or decs != ({'contextmanager'} if want == 'with' else set()):
                opaque = True
            elif want:
                self.gens.append((f, self_val, pos, kws, node))
                return [(st, ('gen', len(self.gens) - 1))]
            else:
                f = self.eager(f)
        if not opaque and (f.decs - {'staticmethod', 'classmethod', 'property', 'abstractmethod'}):
            opaque = True
        if name in ('rndstr', 'unreserved') and dotted.startswith('oidcrp.util'):
            opaque = True
        if opaque:
            if self_val is not None:
                callee = ('meth', self.freeze_self(st, self_val), name)
            elif f.cls is not None and pos and 'staticmethod' not in f.decs:
                # Class.method(self, ...)
                self_val = pos[0]
                if f.module.is_repo and not self._base_call(st, f, self_val, pos) and \
                        any(name in c.methods for c in self.prog.subclasses(f.cls.dotted) if c.dotted != f.cls.dotted):
                    # not what self.method(...) would have been
                    name = '{}.{}'.format(f.cls.name, name)
                callee = ('meth', self.freeze_self(st, self_val), name)
                pos = pos[1:]
            else:
                callee = self.func_term(f)
            pos, kws = self.canon_args(st, f, self_val, pos, kws)
            return self.opaque_call(st, callee, self_val, pos, kws, node, name=name, func=f)
        return self.inline(st, f, self_val, pos, kws, node)

    # generators ------------------------------------------------------------------------
    def yields(self, f):
        """a generator function: True, or 'odd' when what is sent to it matters"""
        r = self.prog.generators.get(f.node)
        if r is None:
            r = False
            plain = set()
            todo = list(ast.iter_child_nodes(f.node))
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, ast.Expr):
                    plain.add(n.value)
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = 'odd' if n not in plain or r == 'odd' else True
                todo.extend(ast.iter_child_nodes(n))
            self.prog.generators[f.node] = r
        return r

    def eager(self, f):
        """the generator function as one that returns the list of what it yields"""
        if f not in self.prog.eager:
            g = copy.copy(f)
            g.node = Yielded().run(f.node)
            self.prog.eager[f] = g
        return self.prog.eager[f]

    def run_gen(self, st, gen, body, thrown):
        """the generator run to its end, `body` at every yield -> states; thrown: an exception of the body is
        raised at the yield (with) or leaves the generator (for)"""
        f, self_val, pos, kws, node = gen
        self.analysed.add(f.dotted)
        ends = []
        for s, env in self.bind_args(st, f, self_val, pos, kws, node):
            s = s.clone()
            s.stack = s.stack + (st.env,)
            s.env = env
            outer, self.sink = self.sink, []
            self.callstack.append(f.dotted)
            self.frames.append(f)
            self.yielders.append((body, None if thrown else outer, len(self.handlers)))
            try:
                flow = self.exec_block(f.node.body, [s])
            finally:
                self.yielders.pop()
                self.frames.pop()
                self.callstack.pop()
                raised, self.sink = self.sink, outer
            for s2 in flow.n + [x for x, _ in flow.r]:
                ends.append(self._pop(s2, s2.stack[-1]))
            self.sink.extend((self._pop(s2, s2.stack[-1]), v) for s2, v in raised)
        return ends

    def ev_Yield(self, node, st):
        if not self.yielders or self.yielders[-1] is None:
            return self.ev_generic(node, st)
        vals = self.ev(node.value, st) if node.value is not None else [(st, NONE)]
        return [(s2, NONE) for s, v in vals for s2 in self.do_yield(s, v)]

    def do_yield(self, s, v):
        body, outer, nh = self.yielders.pop()
        frame, call = self.frames.pop(), self.callstack.pop()
        inner = s.env
        s = s.clone()
        s.env = s.stack[-1]
        s.stack = s.stack[:-1] + (inner,)
        sink, self.sink = self.sink, []
        handlers = self.handlers
        if outer is not None:
            self.handlers = handlers[:nh]
        try:
            res = body(s, v)
        finally:
            raised, self.sink = self.sink, sink
            self.handlers = handlers
            self.yielders.append((body, outer, nh))
            self.frames.append(frame)
            self.callstack.append(call)
        if outer is not None:
            outer.extend((self.leave_gen(x), e) for x, e in raised)
        else:
            self.sink.extend((self.back(x, inner), e) for x, e in raised)
        return [self.back(x, inner) for x in res]

    def leave_gen(self, s):
        s = s.clone()
        s.stack = s.stack[:-1]
        return s

    def back(self, s, inner):
        s = s.clone()
        s.stack = s.stack[:-1] + (s.env,)
        s.env = inner
        return s

    def freeze_self(self, st, v):
        return self.freeze(st, v)

    def canon_args(self, st, f, self_val, pos, kws):
        """named arguments by name whenever possible, so that f(a, b) and f(a, y=b) look the same"""
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if f.cls is not None and 'staticmethod' not in f.decs and params:
            params = params[1:]
        out = []
        rest = []
        for i, v in enumerate(pos):
            if v[0] == 'star' or i >= len(params):
                rest.append(v)
            else:
                out.append((params[i], v))
        return rest, out + list(kws)

    def inline(self, st, f, self_val, pos, kws, node, closure_env=None):
        self.analysed.add(f.dotted)
        binds = self.bind_args(st, f, self_val, pos, kws, node, closure_env)
        res = []
        caller_env = st.env
        out = []
        for s, env in binds:
            s = s.clone()
            s.stack = s.stack + (caller_env,)
            s.env = env
            self.callstack.append(f.dotted)
            self.frames.append(f)
            saved_sink, self.sink = self.sink, []
            self.yielders.append(None)
            try:
                if isinstance(f.node, ast.Lambda):
                    flow = Flow()
                    flow.r = self.ev(f.node.body, s)
                else:
                    flow = self.exec_block(f.node.body, [s])
            finally:
                raised, self.sink = self.sink, saved_sink
                self.yielders.pop()
                self.callstack.pop()
                self.frames.pop()
            for s2 in flow.n:
                out.append(('n', NONE, self._pop(s2, caller_env)))
            for s2, v in flow.r:
                out.append(('n', v, self._pop(s2, caller_env)))
            for s2, v in raised:
                out.append(('x', v, self._pop(s2, caller_env)))
        out = self._merge_vals(out)
        if len(out) > self.cfg.max_states:
            raise Limit('{} outcomes of {}'.format(len(out), f.dotted))
        for kind, v, s in out:
            if kind == 'n':
                res.append((s, v))
            else:
                self.sink.append((s, v))
        return res

    def _pop(self, s, caller_env):
        s = s.clone()
        s.env = caller_env
        s.stack = s.stack[:-1]
        return s

    def bind_args(self, st, f, self_val, pos, kws, node, closure_env=None):
        """-> [(state, env)]"""
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = dict(closure_env) if closure_env else {}
        pos = list(pos)
        if self_val is not None and 'staticmethod' not in f.decs:
            pos = [self_val] + pos
        named, maps = [], []
        for n, v in kws:
            if n is None:
                maps.append(v)
            else:
                named.append((n, v))
        # what ** mappings are known to hold
        explicit = dict(named)
        nd = len(a.defaults)
        defaults = {}
        for p, d in zip(params[len(params) - nd:], a.defaults):
            defaults[p] = d
        for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                defaults[p] = d
        states = [(st, env)]
        i = 0
        star = None
        for p in params:
            if i < len(pos):
                if pos[i][0] == 'star':
                    star = pos[i][1]
                    i = len(pos)
                else:
                    v = pos[i]
                    states = [(s, {**e, p: v}) for s, e in states]
                    i += 1
                    continue
            states = self._bind_one(states, p, explicit, maps, defaults, f, star)
        for p in [x.arg for x in a.kwonlyargs]:
            states = self._bind_one(states, p, explicit, maps, defaults, f, None)
        if a.vararg:
            extra = pos[i:]
            states = [(s, {**e, a.vararg.arg: ('tup', tuple(extra)) if not any(x[0] == 'star' for x in extra)
                      else (extra[0][1] if len(extra) == 1 else ('tup', tuple(extra)))}) for s, e in states]
        if a.kwarg:
            allp = set(params) | {x.arg for x in a.kwonlyargs}
            out = []
            for s, e in states:
                # order of the call is kept: ** first or last does not matter, clashes are errors
                ops = []
                base = None
                for m in maps:
                    ops.append(('upd', self.freeze(s, m)))
                mo = s.heap.get(maps[0]) if len(maps) == 1 else None
                if len(maps) == 1 and not (allp & self._mapping_known(s, maps[0])):
                    if mo is None:
                        base, ops = maps[0], []
                    elif mo.kind == 'dict':
                        base, ops = mo.base, list(mo.ops)
                if maps:
                    for p in sorted(allp):
                        if self_val is not None and p == params[0]:
                            continue
                        if self._mapping_may(s, maps, p):
                            ops.append(('del', C(p)))
                for n, v in named:
                    if n not in allp:
                        ops.append(('set', C(n), v))
                s2, ref = self.new(s, f.node, 'dict', base=base, ops=ops)
                out.append((s2, {**e, a.kwarg.arg: ref}))
            states = out
        return states

    def _mapping_known(self, st, m):
        o = st.heap.get(m)
        if o is None:
            return set()
        return {op[1][2] for op in o.ops if op[0] == 'set' and op[1][0] == 'c'}

    def _mapping_may(self, st, maps, p):
        """might one of the mappings still hold parameter p"""
        for m in maps:
            o = st.heap.get(m)
            if o is None:
                if m[0] == 'obj':
                    return True
                if self.decide(st, ('in', C(p), m)) is not False:
                    return True
                continue
            r = None
            for op in reversed(o.ops):
                if op[0] in ('set', 'del') and op[1] == C(p):
                    r = op[0] == 'set'
                    break
                if op[0] in ('upd', 'hav'):
                    r = True
                    break
            if r is None:
                r = o.base is not None and self.decide(st, ('in', C(p), o.base)) is not False
            if r:
                return True
        return False

    def _bind_one(self, states, p, explicit, maps, defaults, f, star):
        out = []
        for s, e in states:
            if p in explicit:
                out.append((s, {**e, p: explicit[p]}))
                continue
            cur = [(s, None)]
            done = []
            for m in maps:
                nxt = []
                for s2, _ in cur:
                    if m[0] not in ('ref', 'obj') and m not in s2.heap and p not in defaults:
                        done.append((s2, ('item', m, C(p))))
                        continue
                    for s3, v in self.lookup(s2, m, C(p)):
                        if v is None:
                            nxt.append((s3, None))
                        else:
                            done.append((s3, v))
                cur = nxt
            for s2, v in done:
                out.append((s2, {**e, p: v}))
            for s2, _ in cur:
                if star is not None:
                    out.append((s2, {**e, p: ('item', star, ('sym', 'arg_' + p))}))
                elif p in defaults:
                    d = defaults[p]
                    v = self.default_value(f, d)
                    out.append((s2, {**e, p: v}))
                else:
                    # a missing argument
                    self.sink.append((s2, ('exc', 'builtins.TypeError', ('missing', f.dotted, p))))
        return out

    def default_value(self, f, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        v = self.literal(f.module, d, f.cls)
        if v is not None:
            if v[0] == 'obj':
                return ('dflt', f.dotted, v)
            return v
        return ('dflt', f.dotted, ('opq', ast.dump(d)))

    # constructing objects ---------------------------------------------------------------
    def construct(self, st, cls, pos, kws, node):
        if self.is_message_cls(cls):
            ops = []
            for n, v in kws:
                if n is None:
                    ops.append(('upd', self.freeze(st, v)))
                else:
                    ops.append(('set', C(n), v))
            for v in pos:
                ops.append(('upd', self.freeze(st, v)))
            # unpacking a mapping can fail when it is none
            if any(n is None for n, v in kws) and self.handlers and self._catches_exactly('builtins.TypeError'):
                self.sink.append((st, ('exc', 'builtins.TypeError', ('unpack',))))
            c = None
            if cls[0] == 'cls':
                c = self.prog.cls(cls[1])
            s, ref = self.new(st, node, 'inst', cls=cls, ops=ops)
            return [(s, ref)]
        c = self.prog.cls(cls[1])
        if self._exc_like(c):
            return [(st, ('exc', cls[1], ('args', tuple(self.freeze(st, v) for v in pos))))]
        if not c.module.is_repo:
            return self.opaque_call(st, cls, None, pos, kws, node, name=cls[1].split('.')[-1])
        if cls[1] in self.cfg.opaque or c.name in self.cfg.opaque:
            return self.opaque_call(st, cls, None, pos, kws, node, name=c.name)
        s, ref = self.new(st, node, 'inst', cls=cls)
        init = self.prog.find_method(c, '__init__')
        if init is not None and init.module.is_repo:
            res = []
            for s2, _ in self.call_func(s, init, ref, pos, kws, node):
                res.append((s2, ref))
            return res
        return [(s, ref)]

    def _exc_like(self, c):
        return any(b.endswith('Error') or b.endswith('Exception') or
                   b.startswith('builtins.') and 'builtins.BaseException' in self._exc_anc(b)
                   for b in self.prog.ext_bases(c))

    # methods of values ------------------------------------------------------------------
    MUT = {'update', 'append', 'extend', 'pop', 'setdefault', 'remove', 'insert', 'clear', 'add', 'discard', 'popitem',
           'sort', 'reverse'}
    CONTAINER = MUT | {'get', 'keys', 'values', 'items', 'copy', '__contains__', '__getitem__', '__setitem__', 'to_dict'}

    def call_method(self, st, b, name, pos, kws, node):
        """a method of something that is not an instance of a class of the repository"""
        if b[0] == 'c' or b[0] == 'cat' or (b[0] == 'call' and b[1] == ('ext', 'builtins.str')):
            r = self.str_method(st, b, name, pos, kws, node)
            if r is not None:
                return r
        if name == 'format' and b[0] == 'glob':
            g = self.glob_value(b)
            if g is not None and g[0] == 'c':
                r = self.str_method(st, g, name, pos, kws, node)
                if r is not None:
                    return r
        o = st.heap.get(b)
        cls = self.typeof(b, st)
        stateful_repo = cls is not None and cls.module.is_repo and not self.prog.is_subclass(cls, 'oidcmsg.message.Message')
        if not stateful_repo:
            if name == 'get' and 1 <= len(pos) <= 2 and len(kws) <= 1 and (not kws or kws[0][0] == 'default') and \
                    not (b[0] == 'item' and b[2] == C('http_client')) and not (b[0] == 'attr' and b[2] in ('http',)):
                dflt = pos[1] if len(pos) == 2 else (kws[0][1] if kws else NONE)
                if b[0] not in ('mod', 'ext'):
                    return [(s, v if v is not None else dflt) for s, v in self.lookup(st, b, self.freeze(st, pos[0]))]
            if name in ('keys', 'values', 'items') and not pos and not kws:
                return [(st, ('view', name, b))]
            if name == 'copy' and not pos and not kws:
                return [self.copy(st, b, node)]
            if name == '__contains__' and len(pos) == 1:
                return [(s, C(p)) for s, p in self.contains_key(st, pos[0], b)]
            if name == '__getitem__' and len(pos) == 1:
                return self.load_item(st, b, pos[0], node)
            if name == '__setitem__' and len(pos) == 2:
                return [(s, NONE) for s in self.store_item(st, b, pos[0], pos[1], node)]
            if name in self.MUT and not (name == 'update' and self._is_hash(b)):
                r = self.mutate(st, b, name, pos, kws, node)
                if r is not None:
                    return r
            if name == 'join' and len(pos) == 1:
                pass
            if name == 'to_dict' and o is not None and not pos:
                return [self.copy(st, b, node)]
            if self.cfg.fold and name in ('to_urlencoded', 'to_json'):
                try:
                    v = known_value(self.freeze(st, b))
                    v = {k: x for k, x in v.items() if x is not None}
                    return [(st, C(urllib.parse.urlencode(v, doseq=True) if name == 'to_urlencoded' else json.dumps(v)))]
                except (NotKnown, AttributeError):
                    pass
            if self.cfg.fold and b[0] == 'tup' and len(b[1]) in URL_PARTS and name in ('geturl', '_replace'):
                try:
                    v = URL_PARTS[len(b[1])](*known_value(b))
                    v = v.geturl() if name == 'geturl' else v._replace(**{k: known_value(self.freeze(st, x)) for k, x in kws})
                    return [(st, term_of(v))]
                except (NotKnown, ValueError, TypeError):
                    pass
        return self.opaque_call(st, ('meth', self.freeze(st, b), name), b, pos, kws, node, name=name)

    def _is_hash(self, b):
        return b[0] == 'call' and (b[1][0] == 'ext' and b[1][1].startswith(('hashlib', 'hmac')))

    def copy(self, st, b, node, deep=False):
        if b[0] == 'glob':
            g = self.glob_value(b)
            # small enough to be gone through
            if g is not None and g[0] == 'obj' and len(g[4]) <= self.cfg.unroll_max:
                b = g
        o = st.heap.get(b)
        if o is None and b[0] == 'obj':
            o = HObj(b[1], b[2], b[3], b[4], b[5])
        if deep:
            fb = self.freeze(st, b)
            if o is not None and o.base is None and not o.attrs:
                return self.new(st, node, o.kind, cls=o.cls,
                                ops=tuple(self._frz_op(st, op, ()) for op in o.ops))
            return self.new(st, node, o.kind if o is not None else 'any', cls=o.cls if o is not None else None,
                            base=('deep', fb))
        if o is not None:
            base = o.base
            return self.new(st, node, o.kind, cls=o.cls, base=base, ops=o.ops, attrs=o.attrs)
        return self.new(st, node, 'any', base=b)

    def mutate(self, st, b, name, pos, kws, node):
        res = []
        if b[0] == 'c':
            return None
        if name == 'update':
            ops = []
            for v in pos:
                ops.append(('upd', self.freeze(st, v)))
            for n, v in kws:
                ops.append(('upd', self.freeze(st, v)) if n is None else ('set', C(n), v))
            o = st.heap.get(b)
            if o is not None and o.kind == 'set':
                ops = [('ext', self.freeze(st, v)) for v in pos]
            s = st
            for op in ops:
                # an update with known content is as good as single assignments
                if op[0] == 'upd' and op[1][0] == 'obj' and op[1][3] is None and not op[1][5] and all(
                        x[0] == 'set' for x in op[1][4]):
                    for x in op[1][4]:
                        s = self.push_op(s, b, x)
                        s = self.note(s, b, 'setitem', 'update', (x[1], x[2]), node)
                else:
                    s = self.push_op(s, b, op)
                    if op[0] == 'set':
                        s = self.note(s, b, 'setitem', 'update', (op[1], self.freeze(s, op[2])), node)
                    else:
                        s = self.note(s, b, 'update', 'update', (op[1],), node)
            return [(s, NONE)]
        if name in ('append', 'add') and len(pos) == 1:
            s = self.push_op(st, b, ('e', pos[0]))
            s = self.note(s, b, 'append', name, (self.freeze(s, pos[0]),), node)
            return [(s, NONE)]
        if name == 'extend' and len(pos) == 1:
            known = self.iterate(st, pos[0])
            s = st
            if known is not None:
                for v in known:
                    s = self.push_op(s, b, ('e', v))
            else:
                s = self.push_op(s, b, ('ext', self.freeze(st, pos[0])))
            s = self.note(s, b, 'append', name, (self.freeze(s, pos[0]),), node)
            return [(s, NONE)]
        if name == 'setdefault' and pos:
            k = self.freeze(st, pos[0])
            d = pos[1] if len(pos) > 1 else NONE
            for s, v in self.lookup(st, b, k):
                if v is not None:
                    res.append((s, v))
                else:
                    s2 = self.push_op(s, b, ('set', k, d))
                    s2 = self.note(s2, b, 'setitem', name, (k, self.freeze(s2, d)), node)
                    res.append((s2, d))
            return res
        if name == 'pop' and pos and (st.heap.get(b) is None or st.heap[b].kind not in ('list', 'set')):
            k = self.freeze(st, pos[0])
            if pos[0][0] == 'c' and isinstance(pos[0][2], int):
                return None
            for s, v in self.lookup(st, b, k):
                if v is not None:
                    s2 = self.push_op(s, b, ('del', k))
                    s2 = self.note(s2, b, 'delitem', name, (k,), node)
                    res.append((s2, v))
                elif len(pos) > 1:
                    res.append((s, pos[1]))
                else:
                    self.raise_(s, 'builtins.KeyError', node)
            return res
        if name in ('remove', 'discard') and pos:
            o = st.heap.get(b)
            s = self.push_op(st, b, ('rem', self.freeze(st, pos[0])))
            s = self.note(s, b, 'remove', name, (self.freeze(st, pos[0]),), node)
            return [(s, NONE)]
        if name in ('sort', 'reverse'):
            o = st.heap.get(b)
            known = self.in_order(st, b, name, kws) if o is not None and o.kind == 'list' else None
            if known is not None:
                return [(st.sethobj(b, HObj('list', None, None, tuple(('e', v) for v in known), ())), NONE)]
            if o is not None:
                t = E_call(('meth', self.freeze(st, b), name))
                s = st.sethobj(b, HObj('list', None, t, (), ()))
            else:
                t = E_call(('meth', b, name))
                s = st.sethobj(b, HObj('list', None, t, (), ()))
            return [(s, NONE)]
        if name == 'clear' and not pos:
            s = self.push_op(st, b, ('clear',))
            s = self.note(s, b, 'update', 'clear', (), node)
            return [(s, NONE)]
        if name == 'insert' and len(pos) == 2:
            s = self.push_op(st, b, ('ins', self.freeze(st, pos[0]), pos[1]))
            s = self.note(s, b, 'append', name, (self.freeze(s, pos[1]),), node)
            return [(s, NONE)]
        return None

    def in_order(self, st, b, name, kws=()):
        """the elements of a list of constants after sorting or reversing it"""
        known = self.iterate(st, b)
        if known is None or any(k != 'reverse' or v[0] != 'c' for k, v in kws):
            return None
        known = list(known)
        if name == 'reverse':
            return known[::-1]
        if any(v[0] != 'c' for v in known):
            return None
        try:
            return sorted(known, key=lambda v: v[2], reverse=any(v[2] for _, v in kws))
        except TypeError:
            return None

    def note(self, st, b, kind, name, args, node):
        """an effect on an object that exists outside the analysed function"""
        o = st.heap.get(b)
        if b[0] == 'ref':
            if o is None or not (o.kind == 'inst' and o.cls is not None and not self._cls_message(o.cls)):
                return st
        return self.emit(st, Event(kind, name, None, b, args, (), None, self.callstack[-1], getattr(node, 'lineno', 0)))

    def emit(self, st, ev):
        if self.cfg.watch is None or self.cfg.watch(ev):
            return st.event(ev)
        return st

    def str_method(self, st, b, name, pos, kws, node):
        if name == 'format' and b[0] == 'c' and isinstance(b[2], str):
            try:
                parts = list(string.Formatter().parse(b[2]))
            except ValueError:
                return None
            out, auto = [], 0
            kwd = {n: v for n, v in kws if n is not None}
            for lit, field, spec, conv in parts:
                if lit:
                    out.append(C(lit))
                if field is None:
                    continue
                if field == '':
                    field = str(auto)
                    auto += 1
                base = field.split('.')[0].split('[')[0]
                if base != field:
                    return None
                if base.isdigit():
                    if int(base) >= len(pos):
                        if any(p[0] == 'star' for p in pos):
                            return None
                        self.raise_(st, 'builtins.IndexError', node)
                        return []
                    v = pos[int(base)]
                elif base in kwd:
                    v = kwd[base]
                else:
                    maps = [v for n, v in kws if n is None]
                    if not maps:
                        return None
                    r = self.lookup(st, maps[0], C(base))
                    v = r[0][1] if r and r[0][1] is not None else ('item', self.freeze(st, maps[0]), C(base))
                v = self.strterm(self.freeze(st, v))
                if spec:
                    v = ('fmt', v, C(spec))
                out.append(v)
            return [(st, cat(out))]
        if name == 'join' and len(pos) == 1 and b[0] == 'c':
            known = self.iterate(st, pos[0])
            if known is not None:
                out = []
                for i, v in enumerate(known):
                    if i:
                        out.append(b)
                    out.append(self.freeze(st, v))
                if isinstance(b[2], str):
                    return [(st, cat(out))]
            return None
        if b[0] == 'c' and isinstance(b[2], str) and all(p[0] == 'c' for p in pos) and not kws and name in (
                'lower', 'upper', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'encode',
                'isdigit', 'title', 'capitalize', 'partition', 'rpartition', 'rsplit', 'find', 'count', 'isalnum', 'isnumeric'):
            try:
                v = getattr(b[2], name)(*[p[2] for p in pos])
            except Exception:
                return None
            if isinstance(v, tuple):
                return [(st, ('tup', tuple(C(x) for x in v)))]
            if isinstance(v, list):
                return [self.new(st, node, 'list', ops=[('e', C(x)) for x in v])]
            return [(st, C(v))]
        if name == 'encode' and b[0] == 'c' and isinstance(b[2], str):
            return [(st, C(b[2].encode()))]
        return None

    # external functions -----------------------------------------------------------------
    def call_ext(self, st, fv, pos, kws, node):
        n = fv[1]
        if n.startswith('builtins.'):
            short = n[9:]
            r = self.call_builtin(st, short, pos, kws, node)
            if r is not None:
                return r
            ty = getattr(builtins, short, None)
            if isinstance(ty, type) and issubclass(ty, BaseException):
                return [(st, ('exc', n, ('args', tuple(self.freeze(st, v) for v in pos))))]
        if n in ('copy.copy',) and len(pos) == 1:
            return [self.copy(st, pos[0], node)]
        if n in ('copy.deepcopy',) and pos:
            return [self.copy(st, pos[0], node, deep=True)]
        if n in PURE_EXT and pos and not kws and all(v[0] == 'c' for v in pos):
            try:
                return [(st, C(PURE_EXT[n](*[v[2] for v in pos])))]
            except Exception:
                pass
        if self.cfg.fold and n in FOLDED:
            try:
                v = FOLDED[n](*[known_value(self.freeze(st, v)) for v in pos], **{k: known_value(self.freeze(st, v)) for k, v in kws if k})
                return [self.known(st, term_of(v), node)]
            except Exception:
                pass
        if n == 'functools.partial' and pos and all(k is not None for k, _ in kws) and all(v[0] != 'star' for v in pos):
            return [(st, ('partial', pos[0], tuple(pos[1:]), tuple(kws)))]
        if n in AS_SOURCE and not kws and all(v[0] != 'star' for v in pos):
            r = self.from_source(st, AS_SOURCE[n], pos, node)
            if r is not None:
                return r
        return self.opaque_call(st, fv, None, pos, kws, node, name=n.split('.')[-1])

    def known(self, st, t, node):
        """a new object for a known list or dictionary"""
        if t[0] == 'obj':
            return self.new(st, node, t[1], ops=t[4])
        return st, t

    def from_source(self, st, src, pos, node):
        """a function of the standard library as the expression it stands for, None when the arguments do not fit"""
        params, expr = src
        if callable(expr):
            expr = expr(pos)
            params = _args(pos)
        if expr is None or len(params) != len(pos):
            return None
        return self.written_out(st, expr, dict(zip(params, pos)), node)

    def parsed(self, expr, node):
        key = (expr, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        g = self.made.get(key)
        if g is None:
            g = self.made[key] = ast.parse(expr, mode='eval').body
            for x in ast.walk(g):
                if hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = key[1]
                    x.end_col_offset = x.col_offset = key[2]
        return g

    def written_out(self, st, expr, env, node, cond=False):
        """an expression over some values -> [(state, value)], or [(state, bool)] of a condition"""
        g = self.parsed(expr, node)
        saved = st.env
        st = st.clone()
        st.env = {**st.env, **env}
        res = []
        for s, v in (self.cond if cond else self.ev)(g, st):
            s = s.clone()
            s.env = saved
            res.append((s, v))
        return res

    def is_set(self, st, v):
        o = st.heap.get(v)
        if o is not None:
            return o.kind == 'set'
        if v[0] == 'glob':
            v = self.glob_value(v) or v
        return v[0] == 'obj' and v[1] == 'set' or v[0] == 'view' and v[1] == 'keys' or \
            v[0] == 'call' and v[1] in (('ext', 'builtins.set'), ('ext', 'builtins.frozenset'))

    def set_op(self, st, op, a, b, node):
        """-> [(state, value)], None when these are no sets"""
        if op == 'BitAnd':
            ka, kb = self.iterate(st, a), self.iterate(st, b)
            if (ka is None) != (kb is None) and (ka is None) == (len(ka or kb or ()) <= 3):
                a, b = b, a         # goes over the few that are known, or over those that are not
        src = {'BitAnd': '{__x for __x in __a if __x in __b}', 'Sub': '{__x for __x in __a if __x not in __b}',
               'BitOr': '{__x for __it in (__a, __b) for __x in __it}' if self.iterate(st, a) is not None and
               self.iterate(st, b) is not None else '{*__a, *__b}'}.get(op)
        if src is None:
            return None
        return self.written_out(st, src, {'__a': a, '__b': b}, node)

    def _mapped(self, st, n, pos, node):
        """map and filter are the generator expressions they stand for"""
        if n == 'map':
            src = '(__map_f(__map_x) for __map_x in __map_it)'
        elif pos[0] == NONE:
            src = '(__map_x for __map_x in __map_it if __map_x)'
        else:
            src = '(__map_x for __map_x in __map_it if __map_f(__map_x))'
        g = ast.parse(src, mode='eval').body
        for x in ast.walk(g):
            if hasattr(x, 'lineno'):
                x.lineno = x.end_lineno = getattr(node, 'lineno', 0)
                x.col_offset = x.end_col_offset = getattr(node, 'col_offset', 0)
        saved = st.env
        st = st.setenv('__map_f', pos[0]).setenv('__map_it', pos[1])
        res = []
        for s, v in self.ev_GeneratorExp(g, st):
            s = s.clone()
            s.env = saved
            res.append((s, v))
        return res

    def call_builtin(self, st, n, pos, kws, node):
        if n == 'dict':
            ops = []
            base = None
            if len(pos) == 1:
                known = self.iterate(st, pos[0])
                o = st.heap.get(pos[0])
                if o is not None and o.kind in ('dict', 'inst', 'any'):
                    base, ops = o.base, list(o.ops)
                elif known is not None and all(k[0] == 'tup' and len(k[1]) == 2 for k in known):
                    ops = [('set', self.freeze(st, k[1][0]), k[1][1]) for k in known]
                elif o is not None and o.base is not None and o.base[0] == 'comp':
                    base = ('comp', 'dict', tuple((f, v[0][1] if len(v) == 1 and v[0][0] == 'tup' else v)
                                                  for f, v in o.base[2]), o.base[3])
                elif pos[0][0] == 'comp':
                    c = pos[0]
                    base = ('comp', 'dict', tuple((f, v[0][1] if len(v) == 1 and v[0][0] == 'tup' else v)
                                                  for f, v in c[2]), c[3])
                elif pos[0][0] == 'view' and pos[0][1] == 'items':
                    return [self.copy(st, pos[0][2], node)]
                else:
                    base = self.freeze(st, pos[0])
            for k, v in kws:
                ops.append(('upd', self.freeze(st, v)) if k is None else ('set', C(k), v))
            return [self.new(st, node, 'dict', base=base, ops=ops)]
        if n in ('list', 'set', 'tuple', 'frozenset', 'sorted') and not pos:
            if n in ('tuple', 'frozenset'):
                return [(st, ('tup', ()))]
            return [self.new(st, node, n)]
        if n in ('list', 'tuple', 'set', 'frozenset') and len(pos) == 1:
            known = self.iterate(st, pos[0])
            if known is not None:
                if n == 'tuple':
                    return [(st, ('tup', tuple(known)))]
                return [self.new(st, node, 'set' if n in ('set', 'frozenset') else 'list', ops=[('e', v) for v in known])]
            if n == 'list':
                v = pos[0]
                o = st.heap.get(v)
                if o is not None and o.kind in ('list', 'set'):
                    return [self.new(st, node, 'list', base=o.base, ops=o.ops)]
                return [self.new(st, node, 'list', base=('view', 'keys', self.freeze(st, v[2])) if v[0] == 'view' and v[1] == 'keys'
                                 else self._fview(st, v))]
            return [(st, E_call(('ext', 'builtins.' + n), (self._fview(st, pos[0]),)))]
        if n in ('map', 'filter') and len(pos) == 2 and not kws and node is not None:
            return self._mapped(st, n, pos, node)
        if n == 'getattr' and len(pos) >= 2 and pos[1][0] == 'c':
            return self.getattr_(st, pos, node)
        if n == 'setattr' and len(pos) == 3:
            if pos[1][0] == 'c':
                return [(s, NONE) for s in self.store_attr(st, pos[0], pos[1][2], pos[2], node)]
            s = self.emit(st, Event('setattr', 'setattr', None, pos[0], (self.freeze(st, pos[1]), self.freeze(st, pos[2])), (), None,
                               self.callstack[-1], getattr(node, 'lineno', 0)))
            return [(s, NONE)]
        if n == 'hasattr' and len(pos) == 2 and pos[1][0] == 'c':
            cls = self.typeof(pos[0], st)
            if cls is not None and pos[1][2] in self.class_attr_names(cls):
                return [(st, TRUE)]
            return [(s, C(p)) for s, p in self.fork(st, ('hasattr', self.freeze(st, pos[0]), pos[1][2]))]
        if n == 'str' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'c' and isinstance(v[2], (str, int)) and not isinstance(v[2], bool):
                return [(st, C(str(v[2])))]
            if v[0] == 'cat':
                return [(st, v)]
            return [(st, E_call(('ext', 'builtins.str'), (self.freeze(st, v),)))]
        if n == 'len' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'c':
                try:
                    return [(st, C(len(v[2])))]
                except TypeError:
                    return None
            if v[0] == 'tup':
                return [(st, C(len(v[1])))]
            o = st.heap.get(v)
            if o is None and v[0] == 'obj':
                o = HObj(v[1], v[2], v[3], v[4], v[5])
            if o is not None and o.kind == 'list' and o.base is None and all(x[0] == 'e' for x in o.ops):
                return [(st, C(len(o.ops)))]
            if o is not None and o.kind == 'dict':
                ks = self.iterate(st, ('view', 'keys', v))
                if ks is not None and all(is_const(k) for k in ks):
                    return [(st, C(len(ks)))]
            return [(st, E_call(('ext', 'builtins.len'), (self.freeze(st, v),)))]
        if n in ('bool',) and len(pos) == 1:
            return [(s, C(p)) for s, p in self.truth(st, pos[0])]
        if n in ('any', 'all') and len(pos) == 1:
            known = self.iterate(st, pos[0])
            if known is not None:
                cur, res = [st], []
                for v in known:
                    nxt = []
                    for s in cur:
                        for s2, p in self.truth(s, v):
                            if p == (n == 'any'):
                                res.append((s2, C(p)))
                            else:
                                nxt.append(s2)
                    cur = nxt
                res.extend((s, C(n == 'all')) for s in cur)
                return res
            return None
        if n == 'int' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'c' and isinstance(v[2], (int, float)):
                return [(st, C(int(v[2])))]
            t = E_call(('ext', 'builtins.int'), (self.freeze(st, v),))
            if self._catches_exactly('builtins.ValueError', 'builtins.TypeError'):
                for h in ('builtins.ValueError', 'builtins.TypeError'):
                    if self._catches_exactly(h):
                        self.sink.append((st, ('exc', h, t)))
            return [(st, t)]
        if n in ('range', 'enumerate', 'zip', 'reversed', 'sorted', 'iter', 'map', 'filter', 'min', 'max', 'sum', 'abs', 'ord', 'type',
                 'id', 'hash', 'repr', 'next', 'print', 'callable', 'vars', 'globals', 'locals'):
            if n == 'enumerate' and len(pos) == 1:
                known = self.iterate(st, pos[0])
                if known is not None:
                    return [(st, ('tup', tuple(('tup', (C(i), v)) for i, v in enumerate(known))))]
            if n in ('reversed', 'sorted') and len(pos) == 1:
                known = self.iterate(st, pos[0])
                if known is not None and n == 'reversed':
                    return [(st, ('tup', tuple(known[::-1])))]
            if n == 'sorted' and len(pos) == 1 and pos[0][0] != 'view':
                known = self.in_order(st, pos[0], 'sort', kws)
                if known is not None:
                    return [self.new(st, node, 'list', ops=[('e', v) for v in known])]
            if n == 'zip':
                ks = [self.iterate(st, p) for p in pos]
                if ks and all(k is not None for k in ks):
                    return [(st, ('tup', tuple(('tup', t) for t in zip(*ks))))]
            if n == 'type' and len(pos) == 1:
                cls = self.typeof(pos[0], st)
                if cls is not None:
                    return [(st, ('cls', cls.dotted))]
            if n == 'next':
                return self._next(st, pos, node)
            if n == 'filter' and len(pos) == 2 or n == 'map' and len(pos) == 2:
                return None
            return [(st, E_call(('ext', 'builtins.' + n), tuple(self._fview(st, p) for p in pos),
                                tuple((k, self.freeze(st, v)) for k, v in kws)))]
        return None

    def _next(self, st, pos, node):
        """first element of a generator over an unknown collection"""
        t = pos[0]
        res = []
        first = node.args[0] if isinstance(node, ast.Call) and node.args else None
        if isinstance(first, (ast.GeneratorExp, ast.Call)):
            known = self.iterate(st, t)
            if known:
                return [(st, known[0])]
            if known is not None and len(pos) > 1:
                return [(st, pos[1])]
        if t[0] == 'comp' and len(t[3]) == 1:
            for facts, vs in t[2]:
                s = st
                for a, p in facts:
                    s = self.assume(s, a, p) if s is not None and a[0] != '=' else s
                if s is not None:
                    s = s.clone()
                    s.facts = {**s.facts, ('first', t): True}
                    res.append((s, vs[0]))
            s = st.clone()
            s.facts = {**st.facts, ('first', t): False}
            if len(pos) > 1:
                res.append((s, pos[1]))
            else:
                self.raise_(s, 'builtins.StopIteration', node)
            return res
        known = self.iterate(st, t)
        if known:
            return [(st, known[0])]
        return [(st, E_call(('ext', 'builtins.next'), tuple(self.freeze(st, p) for p in pos)))]

    def _fview(self, st, v):
        if v[0] == 'view':
            return ('view', v[1], self.freeze(st, v[2]))
        return self.freeze(st, v)

    def getattr_(self, st, pos, node):
        b, name = pos[0], pos[1][2]
        cls = self.typeof(b, st)
        if len(pos) == 2 or ('attr', b, name) in (self.cfg.given or ()):
            return self.load_attr(st, b, name, node)
        if cls is not None and cls.module.is_repo:
            if name in self.class_attr_names(cls):
                return self.load_attr(st, b, name, node)
        o = st.heap.get(b)
        if o is not None and any(n == name for n, _ in o.attrs):
            return self.load_attr(st, b, name, node)
        if b[0] == 'mod':
            return self.load_attr(st, b, name, node)
        res = []
        for s, p in self.fork(st, ('hasattr', self.freeze(st, b), name)):
            if p:
                res.extend(self.load_attr(s, b, name, node))
            else:
                res.append((s, pos[2]))
        return res

    # opaque calls -------------------------------------------------------------------------
    def opaque_call(self, st, callee, recv, pos, kws, node, name='', func=None):
        fargs = tuple(self._fview(st, v) for v in pos)
        fkw = tuple(sorted(((n or '**', self._fview(st, v)) for n, v in kws), key=lambda x: (x[0], repr(x[1]))))
        uid = None
        if name in IMPURE:
            st, n = st.site((self.callstack[-1], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), 'call'))
            uid = (self.callstack[-1], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), n)
        res = E_call(callee, fargs, fkw, uid)
        ev = Event('call', name, callee, recv, fargs, fkw, res, self.callstack[-1], getattr(node, 'lineno', 0))
        if name not in PURE and (self.cfg.watch is None or self.cfg.watch(ev)):
            st = st.event(ev)
        self.opaque_raises(st, res, name)
        if name in self.cfg.results:
            return [(st, self.cfg.results[name])]
        hook = getattr(self, 'sum_' + name, None)
        if hook is not None:
            r = hook(st, res, recv, pos, kws, node, func)
            if r is not None:
                return r
        if name == 'verify' and recv is not None and recv[0] == 'ref':
            # verification adds what it verified to the message
            o = st.heap.get(recv)
            if o is not None and o.kind in ('dict', 'inst', 'any'):
                st = st.sethobj(recv, o._replace(ops=o.ops + (('hav', res),)))
        # a repository function or an unknown callable may change the containers it is given
        if callee[0] in ('func', 'item', 'elem', 'sym', 'attr', 'closure') or (
                callee[0] == 'meth' and func is not None and name not in DB_METHODS):
            for v in list(pos) + [v for n, v in kws if n is not None]:
                if v[0] == 'ref':
                    o = st.heap.get(v)
                    if o is not None and o.kind in ('dict', 'list', 'inst', 'any') and not (
                            o.kind == 'inst' and o.cls is not None and not self._cls_message(o.cls)):
                        if o.kind in ('dict', 'any', 'inst') and self.havoc(name, func):
                            st = st.sethobj(v, o._replace(ops=o.ops + (('hav', res),)))
        return [(st, res)]

    def havoc(self, name, func):
        return name not in self.cfg.harmless and name not in ('get_http_url', 'get_http_body', 'sanitize', 'do_request', 'get_request_parameters',
                            'pick_redirect_uri', 'get_state_parameter', 'service_request', 'parse_response')

    def sum_extend_request_args(self, st, res, recv, pos, kws, node, func):
        """fills a dictionary and returns it"""
        kw = dict(kws)
        a = kw.get('args')
        if a is None:
            return None
        if a[0] in ('ref',) or a in st.heap:
            s = self.push_op(st, a, ('upd', res))
            return [(s, a)]
        s = self.push_op(st, a, ('upd', res))
        return [(s, a)]

    sum_multiple_extend_request_args = sum_extend_request_args

    # ------------------------------------------------------------------ stores
    def store_attr(self, st, b, name, val, node):
        o = st.heap.get(b)
        st, o = self.overlay(st, b)
        attrs = tuple((n, v) for n, v in o.attrs if n != name) + ((name, val),)
        st = st.sethobj(b, o._replace(attrs=attrs))
        if b[0] != 'ref' or (o.cls is not None and not self._cls_message(o.cls) and o.kind == 'inst'):
            st = self.emit(st, Event('setattr', name, None, b, (C(name), self.freeze(st, val)), (), None,
                                self.callstack[-1], getattr(node, 'lineno', 0)))
        return [st]

    def store_item(self, st, b, k, val, node):
        k = self.freeze(st, k)
        cls = self.typeof(b, st)
        if cls is not None and cls.module.is_repo:
            m = self.prog.find_method(cls, '__setitem__')
            if m is not None and m.module.is_repo:
                return [s for s, _ in self.call_func(st, m, b, [k, val], [], node)]
        s = self.push_op(st, b, ('set', k, val))
        s = self.note(s, b, 'setitem', 'setitem', (k, self.freeze(s, val)), node)
        return [s]

    def del_item(self, st, b, k, node):
        k = self.freeze(st, k)
        cls = self.typeof(b, st)
        if cls is not None and cls.module.is_repo:
            m = self.prog.find_method(cls, '__delitem__')
            if m is not None and m.module.is_repo:
                return [s for s, _ in self.call_func(st, m, b, [k], [], node)]
        res = []
        if self._catches('builtins.KeyError') or b[0] == 'ref':
            for s, v in self.lookup(st, b, k):
                if v is None:
                    self.raise_(s, 'builtins.KeyError', node)
                else:
                    s = self.push_op(s, b, ('del', k))
                    res.append(self.note(s, b, 'delitem', 'delitem', (k,), node))
            return res
        s = self.push_op(st, b, ('del', k))
        return [self.note(s, b, 'delitem', 'delitem', (k,), node)]

    def bind(self, target, val, st, node=None):
        """-> [states]"""
        if isinstance(target, ast.Name):
            return [st.setenv(target.id, val)]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            known = self.iterate(st, val) if val[0] in ('tup', 'ref', 'obj') else None
            at = next((i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)), None)
            after = 0 if at is None else n - at - 1
            if known is not None and (len(known) == n if at is None else len(known) >= n - 1):
                vals = list(known)
                if at is not None:
                    end = len(vals) - after
                    st, rest = self.new(st, target, 'list', ops=[('e', x) for x in vals[at:end]])
                    vals = vals[:at] + [rest] + vals[end:]
            elif known is not None and at is not None:
                self.raise_(st, 'builtins.ValueError', target)
                return []
            else:
                if self._catches_exactly('builtins.ValueError', 'builtins.TypeError') and known is None:
                    for h in ('builtins.ValueError', 'builtins.TypeError'):
                        if self._catches_exactly(h):
                            self.sink.append((st, ('exc', h, ('unpack', self.freeze(st, val)))))
                if val == NONE:
                    self.raise_(st, 'builtins.TypeError', target)
                    return []
                fv = self.freeze(st, val)
                vals = [('item', fv, C(i)) for i in range(n)]
                if at is not None:
                    vals[at] = ('slice', fv, C(at), C(-after if after else None), NONE)
                    for i in range(at + 1, n):
                        vals[i] = ('item', fv, C(i - n))
            states = [st]
            for t, v in zip(target.elts, vals):
                if isinstance(t, ast.Starred):
                    t = t.value
                states = [s2 for s in states for s2 in self.bind(t, v, s)]
            return states
        if isinstance(target, ast.Attribute):
            res = []
            for s, b in self.ev(target.value, st):
                res.extend(self.store_attr(s, b, target.attr, val, target))
            return res
        if isinstance(target, ast.Subscript):
            res = []
            if isinstance(target.slice, ast.Slice):
                return [st]
            for s, (b, k) in self.ev_list([target.value, target.slice], st):
                res.extend(self.store_item(s, b, k, val, target))
            return res
        if isinstance(target, ast.Starred):
            return self.bind(target.value, val, st)
        return [st]

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        flow = Flow()
        cur = states
        fn = self.frames[-1].node
        for stmt in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                f = self.exec(stmt, s)
                nxt.extend(f.n)
                flow.r.extend(f.r)
                flow.b.extend(f.b)
                flow.c.extend(f.c)
            if len(nxt) > 1 or isinstance(stmt, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                nxt = self.merge(nxt, getattr(stmt, 'end_lineno', None), fn if not isinstance(fn, ast.Lambda) else None)
            cur = nxt
        flow.n = cur
        return flow

    def exec(self, stmt, st):
        m = getattr(self, 'x_' + type(stmt).__name__, None)
        if m is None:
            f = Flow()
            f.n = [st]
            return f
        r = m(stmt, st)
        if isinstance(r, list):
            f = Flow()
            f.n = r
            return f
        return r

    def x_Expr(self, stmt, st):
        if isinstance(stmt.value, ast.Constant):
            return [st]
        if isinstance(stmt.value, ast.YieldFrom) and self.yielders and self.yielders[-1] is not None:
            loop = self.prog.generators.get(stmt)
            if loop is None:
                loop = ast.For(ast.Name('__each__', ast.Store()), stmt.value.value,
                               [ast.Expr(ast.Yield(ast.Name('__each__', ast.Load())))], [])
                loop = self.prog.generators[stmt] = ast.fix_missing_locations(ast.copy_location(loop, stmt))
            return self.exec(loop, st)
        return [s for s, _ in self.ev(stmt.value, st)]

    def x_Assign(self, stmt, st):
        res = []
        for s, v in self.ev(stmt.value, st):
            cur = [s]
            for t in stmt.targets:
                cur = [s3 for s2 in cur for s3 in self.bind(t, v, s2, stmt)]
            res.extend(cur)
        return res

    def x_AnnAssign(self, stmt, st):
        if stmt.value is None:
            return [st]
        res = []
        for s, v in self.ev(stmt.value, st):
            res.extend(self.bind(stmt.target, v, s, stmt))
        return res

    def x_AugAssign(self, stmt, st):
        load = ast.copy_location(
            {ast.Name: lambda t: ast.Name(t.id, ast.Load()),
             ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
             ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(stmt.target)](stmt.target),
            stmt.target)
        res = []
        for s, (a, b) in self.ev_list([load, stmt.value], st):
            o = s.heap.get(a)
            if o is not None and isinstance(stmt.op, ast.Add) and o.kind == 'list':
                res.extend(s2 for s2, _ in self.mutate(s, a, 'extend', [b], [], stmt))
                continue
            if o is not None and isinstance(stmt.op, ast.BitOr):
                res.extend(s2 for s2, _ in self.mutate(s, a, 'update', [b], [], stmt))
                continue
            ob = s.heap.get(b)
            if ob is not None and ob.kind == 'list' and isinstance(stmt.op, ast.Add) and \
                    (a[0] in ('sym', 'attr', 'item', 'call') if o is None else o.kind == 'any'):
                # only a list can be added to a list, and it is changed in place
                got = self.mutate(s, a, 'extend', [b], [], stmt)
                if got is not None:
                    res.extend(s2 for s2, _ in got)
                    continue
            for s2, v in self.binops(s, stmt.op, a, b, stmt):
                res.extend(self.bind(stmt.target, v, s2, stmt))
        return res

    def x_Delete(self, stmt, st):
        cur = [st]
        for t in stmt.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s2 = s.clone()
                    s2.env = {k: v for k, v in s.env.items() if k != t.id}
                    nxt.append(s2)
                elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for s2, (b, k) in self.ev_list([t.value, t.slice], s):
                        nxt.extend(self.del_item(s2, b, k, t))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        s2 = self.emit(s2, Event('delattr', t.attr, None, b, (C(t.attr),), (), None, self.callstack[-1], t.lineno))
                        nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        return cur

    def x_Return(self, stmt, st):
        f = Flow()
        if stmt.value is None:
            f.r = [(st, NONE)]
        else:
            f.r = self.ev(stmt.value, st)
        return f

    def x_Raise(self, stmt, st):
        f = Flow()
        if stmt.exc is None:
            self.sink.append((st, st.exc or ('exc', 'builtins.RuntimeError', None)))
            return f
        for s, v in self.ev(stmt.exc, st):
            if v[0] == 'exc':
                self.sink.append((s, v))
            elif v[0] in ('cls', 'ext'):
                self.sink.append((s, ('exc', self.exc_name(v), ('args', ()))))
            else:
                self.sink.append((s, ('exc', 'builtins.Exception', self.freeze(s, v))))
        return f

    def x_Assert(self, stmt, st):
        res = []
        for s, p in self.cond(stmt.test, st):
            if p:
                res.append(s)
            else:
                self.raise_(s, 'builtins.AssertionError', stmt)
        return res

    def x_If(self, stmt, st):
        f = Flow()
        ts, fs = [], []
        for s, p in self.cond(stmt.test, st):
            (ts if p else fs).append(s)
        ts, fs = self.merge(ts), self.merge(fs)
        for states, body in ((ts, stmt.body), (fs, stmt.orelse)):
            if not states:
                continue
            g = self.exec_block(body, states)
            f.n.extend(g.n)
            f.r.extend(g.r)
            f.b.extend(g.b)
            f.c.extend(g.c)
        return f

    def x_FunctionDef(self, stmt, st):
        s, key = self._closure(stmt, st)
        return [s.setenv(stmt.name, key)]

    def x_Import(self, stmt, st):
        for al in stmt.names:
            if al.asname:
                st = st.setenv(al.asname, ('mod', al.name))
            else:
                st = st.setenv(al.name.split('.')[0], ('mod', al.name.split('.')[0]))
        return [st]

    def x_ImportFrom(self, stmt, st):
        base = self.frames[-1].module._from_base(stmt)
        for al in stmt.names:
            r = self.prog.resolve_dotted(base, al.name)
            st = st.setenv(al.asname or al.name, self.entity_term(r))
        return [st]

    def x_Break(self, stmt, st):
        f = Flow()
        f.b = [st]
        return f

    def x_Continue(self, stmt, st):
        f = Flow()
        f.c = [st]
        return f

    def x_With(self, stmt, st):
        cur = [st]
        self.lazy = (stmt.items[0].context_expr, 'with')
        first = self.ev(stmt.items[0].context_expr, st)
        self.lazy = None
        if any(v[0] == 'gen' for _, v in first):
            return self.managed(stmt, first)
        for it in stmt.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(it.context_expr, s) if it is not stmt.items[0] else first:
                    if it.optional_vars is not None:
                        nxt.extend(self.bind(it.optional_vars, v, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return self.exec_block(stmt.body, cur)

    def managed(self, stmt, vals):
        """a with over a context manager that is a generator function of the repository"""
        f = Flow()
        it = stmt.items[0]
        rest = stmt.body if len(stmt.items) == 1 else [ast.copy_location(ast.With(stmt.items[1:], stmt.body), stmt)]
        for s, v in vals:
            if v[0] != 'gen':
                g = self.exec_block(rest, self.bind(it.optional_vars, v, s) if it.optional_vars is not None else [s])
                f.n.extend(g.n)
                f.r.extend(g.r)
                f.b.extend(g.b)
                f.c.extend(g.c)
                continue
            left = []

            def body(s1, el):
                g = self.exec_block(rest, self.bind(it.optional_vars, el, s1) if it.optional_vars is not None else [s1])
                res = list(g.n)
                for kind, lst in (('r', g.r), ('b', [(x, None) for x in g.b]), ('c', [(x, None) for x in g.c])):
                    for x, val in lst:
                        left.append((kind, val))
                        res.append(x.setenv('__left__', C(len(left) - 1)))
                return res
            for s2 in self.run_gen(s, self.gens[v[1]], body, True):
                k = s2.env.get('__left__')
                if k is None:
                    f.n.append(s2)
                    continue
                kind, val = left[k[2]]
                s2 = s2.clone()
                s2.env = {n: x for n, x in s2.env.items() if n != '__left__'}
                if kind == 'r':
                    f.r.append((s2, val))
                else:
                    (f.b if kind == 'b' else f.c).append(s2)
        return f

    def handler_types(self, h):
        """names of the exceptions a handler catches"""
        if h.type is None:
            return ['builtins.BaseException']
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        res = []
        for e in elts:
            r = self.prog.resolve_expr(self.frames[-1].module, e)
            if r is None:
                res.append('builtins.Exception')
            elif r[0] == 'cls':
                res.append(r[1].dotted)
            elif r[0] == 'ext':
                res.append({'builtins.IOError': 'builtins.OSError'}.get(r[1], r[1]))
            elif r[0] == 'const' and isinstance(r[3], (ast.Name, ast.Attribute)):
                r2 = self.prog.resolve_expr(r[1], r[3])
                res.append(self.exc_name(self.entity_term(r2)) if r2 else 'builtins.Exception')
            elif r[0] == 'const' and isinstance(r[3], ast.Tuple):
                for x in r[3].elts:
                    r2 = self.prog.resolve_expr(r[1], x)
                    res.append(self.exc_name(self.entity_term(r2)) if r2 else 'builtins.Exception')
            else:
                res.append('builtins.Exception')
        return res

    def x_Try(self, stmt, st):
        f = Flow()
        htypes = [self.handler_types(h) for h in stmt.handlers]
        saved_sink, self.sink = self.sink, []
        flat = [t for ts in htypes for t in ts]
        self.handlers.append(flat)
        try:
            g = self.exec_block(stmt.body, [st])
        finally:
            self.handlers.pop()
            raised, self.sink = self.sink, []
        # no exception
        after = Flow()
        if stmt.orelse:
            e = self.exec_block(stmt.orelse, g.n)
            after.n, after.r, after.b, after.c = e.n, e.r + g.r, e.b + g.b, e.c + g.c
        else:
            after = g
        # exceptions, joined where only facts differ
        raised = [(v, s) for _, v, s in self._merge_vals([('x', v, s) for s, v in raised])]
        for exc, s in raised:
            done = False
            for h, ts in zip(stmt.handlers, htypes):
                if any(self.exc_sub(exc[1], t) for t in ts):
                    s2 = s.clone()
                    old = s.exc
                    s2.exc = exc
                    if h.name:
                        s2 = s2.setenv(h.name, exc)
                    e = self.exec_block(h.body, [s2])
                    for lst in (e.n, e.b, e.c):
                        for i, x in enumerate(lst):
                            y = x.clone()
                            y.exc = old
                            lst[i] = y
                    after.n = after.n + e.n
                    after.r = after.r + [(self._setexc(x, old), v) for x, v in e.r]
                    after.b = after.b + e.b
                    after.c = after.c + e.c
                    done = True
                    break
            if not done:
                self.sink.append((s, exc))
        raised2, self.sink = self.sink, saved_sink
        if stmt.finalbody:
            fin = Flow()
            for kind, lst in (('n', after.n), ('b', after.b), ('c', after.c)):
                e = self.exec_block(stmt.finalbody, lst) if lst else Flow()
                getattr(fin, kind).extend(e.n)
                fin.r.extend(e.r)
                fin.b.extend(e.b)
                fin.c.extend(e.c)
            for s, v in after.r:
                e = self.exec_block(stmt.finalbody, [s])
                fin.r.extend((x, v) for x in e.n)
                fin.r.extend(e.r)
            for s, v in raised2:
                e = self.exec_block(stmt.finalbody, [s])
                self.sink.extend((x, v) for x in e.n)
                fin.r.extend(e.r)
            return fin
        self.sink.extend(raised2)
        return after

    x_TryStar = x_Try

    def _setexc(self, s, exc):
        s = s.clone()
        s.exc = exc
        return s

    def x_For(self, stmt, st):
        f = Flow()
        fn = self.frames[-1].node
        self.lazy = (stmt.iter, 'for')
        todo = self.ev(stmt.iter, st)
        self.lazy = None
        for s, it in [r for s0, it0 in todo for r in self.expand(s0, it0)]:
            seq = self.iterate(s, it) if it[0] != 'gen' else None
            if it[0] == 'gen':
                def body(s1, el):
                    g = self.exec_block(stmt.body, [s2 for s2 in self.bind(stmt.target, el, s1)])
                    f.r.extend((self.leave_gen(x), v) for x, v in g.r)
                    f.n.extend(self.leave_gen(x) for x in g.b)
                    return self.merge(g.n + g.c, stmt.end_lineno, fn)
                ends = self.merge(self.run_gen(s, self.gens[it[1]], body, False), stmt.end_lineno, fn)
            elif seq is None and self.comp_of(s, it) is not None:
                ends = []
                cur = [s]
                fit = self._fview(s, it)
                for i in range(1, self.cfg.loop_iters + 1):
                    nxt = []
                    for s1 in cur:
                        some = self.elems_of_comp(s1, it, i)
                        for s2, el in some:
                            nxt.extend(self.bind(stmt.target, el, s2))
                        if i == 1:
                            ends.append(self._exhausted(self._none_of(s1, it), fit, 0))
                    g = self.exec_block(stmt.body, nxt)
                    f.r.extend(g.r)
                    f.n.extend(g.b)
                    cur = self.merge(g.n + g.c, stmt.end_lineno, fn)
                    ends.extend(self._exhausted(x, fit, i) for x in cur)
            elif seq is not None and len(seq) <= self.cfg.unroll_max:
                cur = [s]
                for el in seq:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.bind(stmt.target, el, s1):
                            nxt.append(s2)
                    g = self.exec_block(stmt.body, nxt)
                    f.r.extend(g.r)
                    f.n.extend(g.b)
                    cur = self.merge(g.n + g.c, stmt.end_lineno, fn)
                ends = cur
            else:
                fit = self._fview(s, it)
                base = it[2] if it[0] == 'view' else it
                base = self.iter_base(self.freeze(s, base))
                ends = []
                cur = [s]
                for i in range(1, self.cfg.loop_iters + 1):
                    nxt = []
                    for s1 in cur:
                        if i == 1:
                            z = self.assume(s1, ('T', base), False)
                            if z is not None:
                                ends.append(z)
                            s1 = self.assume(s1, ('T', base), True)
                            if s1 is None:
                                continue
                        for s2 in self.bind(stmt.target, self.elem_of(s1, it, i), s1):
                            nxt.append(s2)
                    g = self.exec_block(stmt.body, nxt)
                    f.r.extend(g.r)
                    f.n.extend(g.b)
                    cur = self.merge(g.n + g.c, stmt.end_lineno, fn)
                    ends.extend(self._exhausted(x, fit, i) for x in cur)
            if stmt.orelse:
                g = self.exec_block(stmt.orelse, ends)
                f.n.extend(g.n)
                f.r.extend(g.r)
                f.b.extend(g.b)
                f.c.extend(g.c)
            else:
                f.n.extend(ends)
        f.n = self.merge(f.n, stmt.end_lineno, fn)
        return f

    x_AsyncFor = x_For

    def comp_of(self, st, it):
        """the comprehension over one unknown collection that is gone through"""
        base = it[2] if it[0] == 'view' else it
        o = st.heap.get(base)
        if o is None and base[0] == 'obj':
            o = HObj(base[1], base[2], base[3], base[4], base[5])
        if o is not None:
            if o.ops or o.base is None:
                return None
            base = o.base
        return base if base[0] == 'comp' and len(base[3]) == 1 else None

    def elems_of_comp(self, st, it, i):
        """-> [(state, element)]"""
        t = self.comp_of(st, it)
        res = []
        for facts, vs in t[2]:
            s = st
            for a, p in facts:
                if s is not None and a[0] != '=':
                    s = self.assume(s, self.nth(a, i), p)
            if s is None:
                continue
            vs = tuple(self.nth(v, i) for v in vs)
            if t[1] != 'dict':
                el = vs[0]
            elif it[0] == 'view' and it[1] == 'items':
                el = ('tup', vs)
            elif it[0] == 'view' and it[1] == 'values':
                el = vs[1]
            else:
                el = vs[0]
            res.append((s, el))
        return res

    def nth(self, t, i):
        """a term about the first element of a collection, about the i:th"""
        if i == 1 or not isinstance(t, tuple):
            return t
        if len(t) == 3 and t[0] in ('elem', 'idx') and t[2] == 1:
            return (t[0], t[1], i)
        return tuple(self.nth(x, i) for x in t)

    def _none_of(self, st, it):
        t = self.comp_of(st, it)
        if len(t[2]) == 1 and not t[2][0][0]:
            z = self.assume(st, ('T', self.iter_base(t[3][0][2] if t[3][0][0] == 'view' else t[3][0])), False)
            if z is not None:
                return z
        return st

    def _exhausted(self, s, it, i):
        s = s.clone()
        s.facts = {**s.facts, ('exhausted', it, i): True}
        return s

    def x_While(self, stmt, st):
        f = Flow()
        fn = self.frames[-1].node
        cur = [st]
        ends = []
        for i in range(self.cfg.loop_iters + 1):
            ts = []
            for s in cur:
                for s2, p in self.cond(stmt.test, s):
                    if p:
                        ts.append(s2)
                    else:
                        ends.append(s2)
            if i == self.cfg.loop_iters:
                # further iterations bring nothing new; leave the loop
                for s in ts:
                    pass
                break
            g = self.exec_block(stmt.body, ts)
            f.r.extend(g.r)
            f.n.extend(g.b)
            cur = self.merge(g.n + g.c, stmt.end_lineno, fn)
        if stmt.orelse:
            g = self.exec_block(stmt.orelse, ends)
            f.n.extend(g.n)
            f.r.extend(g.r)
            f.b.extend(g.b)
            f.c.extend(g.c)
        else:
            f.n.extend(ends)
        f.n = self.merge(f.n, stmt.end_lineno, fn)
        return f

    def x_Match(self, stmt, st):
        f = Flow()
        for s, v in self.ev(stmt.subject, st):
            cur = [s]
            for case in stmt.cases:
                nxt = []
                hit = []
                for s2 in cur:
                    pat = case.pattern
                    if isinstance(pat, ast.MatchValue):
                        for s3, pv in self.ev(pat.value, s2):
                            for s4, p in self.fork(s3, ('eq', self.freeze(s3, v), self.freeze(s3, pv))):
                                (hit if p else nxt).append(s4)
                    elif isinstance(pat, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in pat.patterns):
                        rest = [s2]
                        for x in pat.patterns:
                            r2 = []
                            for s3 in rest:
                                for s4, pv in self.ev(x.value, s3):
                                    for s5, p in self.fork(s4, ('eq', self.freeze(s4, v), self.freeze(s4, pv))):
                                        (hit if p else r2).append(s5)
                            rest = r2
                        nxt.extend(rest)
                    elif isinstance(pat, ast.MatchSingleton):
                        for s3, p in self.fork(s2, ('eq', self.freeze(s2, v), C(pat.value)) if pat.value is not None else ('none', self.freeze(s2, v))):
                            (hit if p else nxt).append(s3)
                    elif isinstance(pat, ast.MatchAs) and pat.pattern is None:
                        hit.append(s2.setenv(pat.name, v) if pat.name else s2)
                    else:
                        for s3, p in self.fork(s2, ('T', ('op', 'Match', (self.freeze(s2, v), C(ast.dump(pat)))))):
                            (hit if p else nxt).append(s3)
                if case.guard is not None:
                    h2 = []
                    for s2 in hit:
                        for s3, p in self.cond(case.guard, s2):
                            (h2 if p else nxt).append(s3)
                    hit = h2
                if hit:
                    g = self.exec_block(case.body, hit)
                    f.n.extend(g.n)
                    f.r.extend(g.r)
                    f.b.extend(g.b)
                    f.c.extend(g.c)
                cur = nxt
            f.n.extend(cur)
        return f
