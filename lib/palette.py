"""The names of the styles and colours, and what the program's own tables make of them."""
from backend import *

STYLES = ('PLAIN', 'BOLD', 'DIM', 'UNDERLINE', 'INVERSE', 'REVERSE', 'ITALIC')


class Plain(Sess):
    """a function interpreted with everything local looked into"""
    def should_inline(self, s, g): return g['local']


def only(d, pat, what=None):
    c = [f for f in d.fns.values() if re.search(pat, f['path']) and 'blocks' in f and f['id'] < 1000000]
    return c[0] if len(c) == 1 else None


def style_type(d):
    return next((i for i, t in enumerate(d.types) if t and t.get('k') == 'adt' and t['def'] == 'liso::Style'), None)


def color_type(d):
    return next((i for i, t in enumerate(d.types) if t and t.get('k') == 'adt' and t['def'] == 'liso::Color'), None)


def is_type(d, i, name):
    """the type of this name, or a reference to it"""
    t = d.types[i] if isinstance(i, int) else None
    while t and t['k'] == 'ref': t = d.types[t['e']]
    return bool(t and t.get('k') == 'adt' and t['def'] == name)


def style_bits(d):
    """the bits of the styles, by name (from the generated table of names)"""
    f = only(d, r'<impl liso::Style>::from_name$')
    out = {}
    if f is None: return out
    for n in STYLES:
        e = Plain(d)
        s = mkstate()
        e.start(s, f['id'], [e.mk(('s', n))])
        for x in e.explore([s]):
            if x.exit[0] == 'return':
                v = e.norm(x, x.user['ret'])
                if e.isc(e.norm(x, e.discr(x, v))) == 1:
                    b = v
                    while e.isc(b) is None and e.tab[b][0] == 'agg' and len(e.tab[b][3]) == 1: b = e.tab[b][3][0]
                    if e.isc(b) is not None: out[n] = e.isc(b)
    return out


def colors(d):
    """the colours: name -> discriminant"""
    t = color_type(d)
    return {v['name'].split('::')[-1]: v['d'] for v in d.types[t]['v']} if t is not None else {}


def style_value(e, bits):
    """a Style with these bits"""
    t = style_type(e.d)

    def go(tid):
        ty = e.ty(tid)
        if ty['k'] == 'adt': return e.agg(tid, 0, tuple(go(x[1]) for x in ty['v'][0]['f']))
        return e.c(bits)
    return go(t)


def style_sym(e, name):
    t = style_type(e.d)

    def go(tid):
        ty = e.ty(tid)
        if ty['k'] == 'adt': return e.agg(tid, 0, tuple(go(x[1]) for x in ty['v'][0]['f']))
        return e.sym(name)
    return go(t)


def bits_of(e, s, v):
    v = e.norm(s, v)
    for _ in range(4):
        t = e.tab[v]
        if t[0] == 'agg' and len(t[3]) == 1: v = e.norm(s, t[3][0])
        elif t[0] in ('agg', 'c'): break
        else: break
    return v


def color_value(e, discr):
    t = color_type(e.d)
    i = next(k for k, v in enumerate(e.ty(t)['v']) if v['d'] == discr)
    return e.agg(t, i, ())
