"""Session records never leak into each other and are removed completely."""
from ..patching import earlier, names_in
from ..q import *
from ..terms import C, show

P = 'oidcrp.state_interface.StateInterface.'
DB = at(SELF, '_db')
STATE = sym('state')
KINDS = (('store_nonce2state', 'get_state_by_nonce', 'nonce'),
         ('store_logout_state2state', 'get_state_by_logout_state', 'logout_state'),
         ('store_sid2state', 'get_state_by_sid', 'sid'),
         ('store_sub2state', 'get_state_by_sub', 'sub'))
INNER = {'store_x2state', 'get_state_by_x'}


def check(ctx):
    records(ctx)
    pats = mappings(ctx)
    removal(ctx, pats)
    database(ctx)
    only_here(ctx)
    ctx.rule('C16.now', 'what the store gives is what it has now', 10)
    earlier(ctx, 'C16.now', lambda f: f.module.name == 'oidcrp.state_interface')
    ctx.rule('C16.owner', 'a subject and a session id lead to the session they were received in', 4)
    mapped(ctx, 'C16.owner')
    ctx.rule('C16.under', 'what is received is kept under the session it was received for', 4)
    kept_under(ctx, 'C16.under')


def writes(o):
    """[(key, value or None)] of everything changed in the data base"""
    res = []
    for _, e, f in effects(o):
        if base_of(strip(e.recv)) == DB if e.recv is not None else False:
            res.append((strip(e.args[0]), strip(e.args[1]) if len(e.args) > 1 else None, e, f))
    return res


def foreign(r, o):
    """changes of anything that is neither the data base nor made of what was read from it"""
    return [e for _, e, _ in effects(o) if e.recv is not None and base_of(strip(e.recv)) != DB and
            not contains(strip(e.recv), lambda t: is_call(t, 'loads', 'get_state', 'from_json') or t == DB)]


def records(ctx):
    ctx.rule('C16.store', 'storing an item changes that item of the record under the key, nothing else')
    ctx.rule('C16.read', 'what is read is the record, and the item of it, stored under the key')
    ctx.rule('C16.missing', 'reading what is not there fails')
    r = ctx.run(P + 'store_item')
    for o in r.returns if r else ():
        w = writes(o)
        ok = len(w) == 1 and w[0][0] == sym('key') and w[0][1] is not None
        if not ctx.ob('C16.store', ok and not foreign(r, o), r.func, 'data base', 'changes {}'.format(
                [show(k) for k, _, _, _ in w])):
            continue
        v = w[0][1]
        rec = recv(v) if is_call(v, 'to_json') else callarg(v, 'obj', 0) if is_call(v, 'dumps') else None
        if not ctx.ob('C16.store', rec is not None, r.func, 'record', 'stores ' + show(v)):
            continue
        base = base_of(rec)
        fresh = base[0] == 'obj' and base[3] is None
        ops = [op for op in all_ops(rec)]
        own = is_call(base, 'get_state') and strip(callarg(base, 'key', 0)) == sym('key') and recv(base) == SELF
        ctx.ob('C16.store', own or fresh and bool(calls(o, 'get_state')), r.func, 'record', 'stores ' + show(v))
        good = [op for op in ops if op[0] == 'set' and strip(op[1]) == sym('item_type') and
                (strip(op[2]) == sym('item') or is_call(strip(op[2]), 'to_json', 'dumps') and mentions(op[2], sym('item')))]
        ctx.ob('C16.store', len(good) == len(ops) > 0, r.func, 'record', 'record stored is ' + show(rec))
    r = ctx.run(P + 'get_state', transparent={'get_state'})
    for o in r.returns if r else ():
        v = r.value(o)
        own = it2(DB, sym('key'))
        ok = contains(v, lambda t: t == own) and is_call(v, 'from_json', 'State') and not writes(o)
        ctx.ob('C16.read', ok, r.func, 'record', 'returns ' + shows(v))
    ctx.ob('C16.missing', bool(r and r.raises), P + 'get_state', 'raise', 'no exception for an unknown key')
    for name, item in (('get_item', sym('item_type')), ('get_iss', C('iss'))):
        r = ctx.run(P + name, transparent={name})
        for o in r.returns if r else ():
            v = r.value(o)
            ok = contains(v, lambda t: t[0] == 'item' and strip(t[2]) == item and is_call(strip(t[1]), 'get_state') and
                          strip(callarg(strip(t[1]), 'key', 0)) == sym('key')) and not writes(o)
            ctx.ob('C16.read', ok, r.func, 'item', 'returns ' + shows(v))


def it2(b, k):
    return ('item', b, k)


def pattern(key, value):
    """(prefix, suffix) around a value in a key"""
    p = parts(key)
    if value not in p:
        return None
    i = p.index(value)
    pre, post = p[:i], p[i + 1:]
    if not all(is_const(x) for x in pre + post) or not pre:
        return None
    return ''.join(str(x[2]) for x in pre), ''.join(str(x[2]) for x in post)


def apart(a, b):
    """strings made with the two patterns can never be equal"""
    return not (a[0].startswith(b[0]) or b[0].startswith(a[0])) or not (a[1].endswith(b[1]) or b[1].endswith(a[1]))


def mappings(ctx):
    ctx.rule('C16.map', 'a mapping leads to the session given, under a key made of the value given', minimum=4)
    ctx.rule('C16.apart', 'the name spaces of the kinds of mappings and of the reference lists cannot collide', minimum=10)
    ctx.rule('C16.refs', 'every mapping is noted in the reference list of its session, which keeps what it had', minimum=4)
    ctx.rule('C16.lookup', 'a mapping is looked up under the key it was stored with; when there is none that is an error')
    pats, reflist = {}, set()
    for store, get, kind in KINDS:
        r = ctx.run(P + store, transparent={store} | INNER, keep=lambda a: a[0] in ('in', 'none') and
                    contains(('x',) + a, lambda t: t == DB))
        g = ctx.run(P + get, transparent={get} | INNER)
        if r is None or g is None:
            continue
        val = sym([a.arg for a in r.func.node.args.args][1])
        for o in r.returns:
            w = writes(o)
            maps = [(k, v) for k, v, _, _ in w if v == STATE]
            ok = len(maps) == 1 and pattern(maps[0][0], val) is not None
            if not ctx.ob('C16.map', ok and not foreign(r, o), r.func, 'mapping', 'stores {}'.format(
                    [(show(k), shows(v)) for k, v, _, _ in w])):
                continue
            pats[kind] = pattern(maps[0][0], val)
            refs = [(k, v) for k, v, _, _ in w if v != STATE]
            ok = len(refs) == 1 and pattern(refs[0][0], STATE) is not None
            if not ctx.ob('C16.refs', ok, r.func, 'references', 'stores {}'.format([show(k) for k, v in refs])):
                continue
            reflist.add(pattern(refs[0][0], STATE))
            old = it2(DB, refs[0][0])
            has = known_in_t(r, o.facts, refs[0][0], DB)
            v = refs[0][1]
            keeps = contains(v, lambda t: t == old)
            ctx.ob('C16.refs', keeps or has is not True or fact(o.facts, r.eng, 'none', old) is True, r.func, 'references', 'earlier references are lost: ' + show(v))
            noted = contains(v, lambda t: t == val) or any(
                e.kind == 'append' and any(strip(a) == val for a in e.args) and contains(strip(e.recv), lambda t: t == old)
                for _, e, _ in effects(o)) or any(
                a[0] == 'in' and p and strip(a[1]) == val and contains(a[2], lambda t: t == old) for a, p in o.facts.items())
            ctx.ob('C16.refs', noted, r.func, 'references', 'the mapping is not noted: ' + show(v))
        gval = sym([a.arg for a in g.func.node.args.args][1])
        for o in g.returns:
            v = g.value(o)
            ok = v[0] == 'item' and v[1] == DB and kind in pats and pattern(v[2], gval) == pats[kind]
            ctx.ob('C16.lookup', ok, g.func, 'mapping', 'returns ' + shows(v))
            ctx.ob('C16.lookup', truthy(o.facts, g.eng, v) is True or known_in_t(g, o.facts, v[2], DB) is True
                   if ok else True, g.func, 'missing', 'may return nothing')
        ctx.ob('C16.lookup', bool(g.raises), g.func, 'raise', 'no exception for an unknown value')
    names = sorted(pats)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ctx.ob('C16.apart', apart(pats[a], pats[b]), P + 'store_x2state', a + ' / ' + b, 'keys {} and {} can collide'.format(
                pats[a], pats[b]))
        for rl in reflist:
            ctx.ob('C16.apart', apart(pats[a], rl), P + 'store_x2state', a + ' / references',
                   'keys {} and {} can collide'.format(pats[a], rl))
    ctx.ob('C16.refs', len(reflist) == 1, P + 'store_x2state', 'references', 'lists are {}'.format(reflist))
    return pats, reflist


def known_in_t(r, facts, key, cont):
    return facts.get(r.eng.norm_atom(('in', key, cont)))


def removal(ctx, found):
    ctx.rule('C16.remove', 'removing a session removes its record')
    ctx.rule('C16.own', 'only mappings that lead to the session are removed with it')
    ctx.rule('C16.complete', 'all mappings noted for the session, and the list itself, are removed')
    pats, reflist = found
    if len(reflist) != 1:
        return
    pre, post = next(iter(reflist))
    r = ctx.run(P + 'remove_state', transparent={'remove_state'},
                keep=lambda a: a[0] == 'eq' and STATE in a or a[0] == 'none' and STATE in a or
                a[0] in ('T', 'in') and contains(('x',) + a, lambda t: t == DB))
    if r is None:
        return
    byname = {}
    for o in r.returns:
        gone = set()
        for k, v, e, f in writes(o):
            if not ctx.ob('C16.own', e.kind == 'delitem' or e.name in ('pop', 'delete'), r.func, 'change',
                          'stores {}'.format(shows(v))):
                continue
            gone.add(k)
            if k == STATE or pattern(k, STATE) == (pre, post):
                continue
            own = known_eq(f, it2(DB, k), STATE, r.eng) or known_eq(f, k, STATE, r.eng) or \
                fact(f, r.eng, 'none', STATE) is True
            ctx.ob('C16.own', own, r.func, 'mapping', 'removes {} without knowing whom it leads to'.format(show(k)), e.line)
            p = parts(k)
            if len(p) == 3 and is_const(p[0]) and is_const(p[2]):
                byname.setdefault((p[0][2], p[2][2]), 0)
        ctx.ob('C16.remove', STATE in gone and not foreign(r, o), r.func, 'record', 'the record is not removed')
        ref = [t for a in o.facts for x in a[1:] if isinstance(x, tuple) for t in walk(x)
               if isinstance(t, tuple) and t and t[0] == 'item' and t[1] == DB and pattern(t[2], STATE) == (pre, post)]
        have = [t for t in ref if truthy(o.facts, r.eng, t) is True]
        if have:
            ctx.ob('C16.complete', have[0][2] in gone, r.func, 'references', 'the reference list is not removed')
        seen = {t for a in o.facts for x in a[1:] if isinstance(x, tuple) for t in walk(x)
                if isinstance(t, tuple) and t and t[0] == 'elem' and contains(t, lambda y: y == have[0])} if have else ()
        inner = [t for t in seen if contains(t[1], lambda y: isinstance(y, tuple) and y and y[0] == 'elem')]
        for t in seen:
            ctx.ob('C16.complete', not contains(t, lambda y: y[0] == 'slice' or is_call(y, 'islice')), r.func, 'references',
                   'only some of the mappings are removed: ' + show(t))
        for t in inner:
            ok = any(mentions(k, t) for k in gone) or any(
                (not p or a[0] == 'eq' and not contains(('x',) + a, lambda x: x[0] == 'item' and x[1] == DB
                                                        and mentions(x[2], t))) and (a[0] == 'eq' and STATE in a or a[0] == 'in' and a[2] == DB) and mentions(('x',) + a, t) for a, p in o.facts.items())
            ctx.ob('C16.complete', ok, r.func, 'mapping', 'a mapping noted for the session stays: ' + show(t))
    ctx.ob('C16.complete', set(byname) == set(pats.values()), r.func, 'kinds', 'removes mappings {} of {}'.format(
        sorted(byname), sorted(pats.values())))


def database(ctx):
    ctx.rule('C16.db', 'the in-memory data base stores and yields values under exactly their keys')
    base = 'oidcrp.state_interface.InMemoryStateDataBase.'
    for name in ('set', '__setitem__'):
        r = ctx.run(base + name, transparent={name})
        for o in r.returns if r else ():
            w = writes(o)
            ctx.ob('C16.db', [(k, v) for k, v, _, _ in w] == [(sym('key'), sym('value'))] or
                   any(True for _ in calls(o, 'set', '__setitem__')), r.func, 'set', 'changes {}'.format(
                       [(show(k), shows(v)) for k, v, _, _ in w]))
    for name in ('get', '__getitem__'):
        r = ctx.run(base + name, transparent={name})
        for o in r.returns if r else ():
            v = r.value(o)
            miss = known_in_t(r, o.facts, sym('key'), DB) is False
            ctx.ob('C16.db', (v == it2(DB, sym('key')) or v == C(None) and miss or is_call(v, 'get', '__getitem__')) and
                   not writes(o), r.func, 'get', 'returns ' + shows(v))
    for name in ('delete', '__delitem__'):
        r = ctx.run(base + name, transparent={name})
        for o in r.returns if r else ():
            w = writes(o)
            ok = all(k == sym('key') and v is None for k, v, _, _ in w) and \
                (len(w) == 1 or known_in_t(r, o.facts, sym('key'), DB) is False or any(True for _ in calls(o, 'delete')))
            ctx.ob('C16.db', ok, r.func, 'delete', 'changes {}'.format([show(k) for k, v, _, _ in w]))


def only_here(ctx):
    import ast
    ctx.rule('C16.only', 'the data base is changed by the session store only', minimum=10)
    ctx.rule('C16.clear', 'ending a session removes the session named from the store of its client')
    for m in ctx.prog.repo_modules:
        if m.name == 'oidcrp.state_interface':
            continue
        found = [n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and n.attr == '_db' and
                 not (isinstance(n.value, ast.Name) and n.value.id == 'self')]
        ctx.ob('C16.only', not found, m.name, '_db', 'reaches into the data base in line {}'.format(found[:1]))
    r = ctx.run('oidcrp.rp_handler.RPHandler.clear_session')
    for o in r.returns if r else ():
        c = calls(o, 'remove_state')
        ok = len(c) == 1 and strip(arg(c[0][1], 'state', 0)) == STATE and is_store(strip(c[0][1].recv)) and \
            contains(strip(c[0][1].recv), lambda t: is_call(t, 'get_client_from_session_key') and
                     strip(callarg(t, 'state', 0)) == STATE)
        ctx.ob('C16.clear', ok, r.func, 'remove_state', 'removes {}'.format([shows(arg(x[1], 'state', 0)) for x in c]))
