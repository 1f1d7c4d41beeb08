"""Value terms: where a value comes from. Immutable, hashable, compared structurally."""


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == 'c'


def sym(name):
    return ('sym', name)


def attr(b, n):
    return ('attr', b, n)


def item(b, k):
    if not isinstance(k, tuple):
        k = C(k)
    return ('item', b, k)


def cat(parts):
    """string concatenation in normal form"""
    out = []
    for p in parts:
        if p[0] == 'cat':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 'c' and q[1] == 'str':
                if q[2] == '':
                    continue
                if out and out[-1][0] == 'c' and out[-1][1] == 'str':
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C('')
    if len(out) == 1 and out[0][0] == 'c':
        return out[0]
    return ('cat', tuple(out))


def walk(t):
    """all sub terms"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def undeep(t):
    """drop copy markers: the value is the same one"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'deep':
        return undeep(t[1])
    if t and t[0] == 'c':
        return t
    r = tuple(undeep(x) if isinstance(x, tuple) else x for x in t)
    return r


def show(t, depth=0):
    """short readable form for reports"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 6:
        return '..'
    d = depth + 1
    if k == 'c':
        return repr(t[2])
    if k == 'sym':
        return t[1]
    if k == 'attr':
        return '{}.{}'.format(show(t[1], d), t[2])
    if k == 'item':
        return '{}[{}]'.format(show(t[1], d), show(t[2], d))
    if k == 'call':
        args = [show(a, d) for a in t[2]] + ['{}={}'.format(n, show(v, d)) for n, v in t[3]]
        return '{}({})'.format(show(t[1], d), ', '.join(args))
    if k == 'meth':
        return '{}.{}'.format(show(t[1], d), t[2])
    if k in ('func', 'cls', 'ext', 'mod'):
        return t[1].split('.')[-1]
    if k == 'bound':
        return '{}.{}'.format(show(t[1], d), t[2].split('.')[-1])
    if k == 'cat':
        return ' ++ '.join(show(p, d) for p in t[1])
    if k == 'elem':
        return 'each({})'.format(show(t[1], d))
    if k == 'owner':
        return 'client_of({})'.format(show(t[1], d))
    if k == 'deep':
        return 'copy({})'.format(show(t[1], d))
    if k == 'obj':
        ops = ', '.join('{}:{}'.format(show(o[1], d), show(o[2], d)) if o[0] == 'set' else
                        '-{}'.format(show(o[1], d)) if o[0] == 'del' else
                        '**{}'.format(show(o[1], d)) for o in t[4])
        base = show(t[3], d) + '; ' if t[3] else ''
        return '{}<{}{}>'.format((show(t[2], d) if t[2] else t[1]), base, ops)
    if k == 'tup':
        return '({})'.format(', '.join(show(x, d) for x in t[1]))
    return '{}({})'.format(k, ', '.join(show(x, d) for x in t[1:] if isinstance(x, tuple)))
