"""Loading and pretty printing of MIR dumps."""
import json, sys

class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.fns = {int(k): v for k, v in d['fns'].items()}
        for k, f in self.fns.items():
            f['id'] = k
        self.items = d['items']
        self.impls = d['impls']
        self.adts = d['adts']
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f['path'], []).append(f)

    def tyname(self, i, depth=3):
        if not isinstance(i, int): return '?'
        t = self.types[i]
        if t is None: return '?'
        k = t['k']
        if 'n' in t: return t['n']
        if k in ('ref',): return '&' + ('mut ' if t['mut'] else '') + self.tyname(t['e'], depth)
        if k == 'ptr': return '*' + self.tyname(t['e'], depth)
        if k == 'tuple': return '(' + ', '.join(self.tyname(x, depth) for x in t['f']) + ')'
        if k == 'slice': return '[' + self.tyname(t['e']) + ']'
        if k == 'array': return '[' + self.tyname(t['e']) + ';%s]' % t['len']
        if k == 'dyn': return 'dyn ' + '+'.join(t['traits'])
        if k == 'closure': return '{' + t['def'] + '}'
        if k == 'coroutine': return '{co ' + t['def'] + '}'
        if k == 'fndef': return 'fndef(%s)' % (self.fname(t['fn']),)
        return k

    def fname(self, x):
        if isinstance(x, int):
            return self.fns[x]['name'] if x in self.fns else '#%d' % x
        if isinstance(x, dict): return 'unres:' + x.get('unres', '?')
        return str(x)

    def ppl(self, p):
        s = '_%d' % p[0]
        for e in p[1:]:
            if e == '*': s = '(*%s)' % s
            elif e[0] == 'f': s += '.%d' % e[1]
            elif e[0] == 'd': s += ' as v%d' % e[1]
            elif e[0] == 'i': s += '[_%d]' % e[1]
            else: s += str(e)
        return s

    def pop(self, o):
        if o[0] == 'c': return self.ppl(o[1])
        if o[0] == 'm': return 'move ' + self.ppl(o[1])
        if o[0] == 'k':
            if 'fn' in o[1]: return 'fn:' + self.fname(o[1]['fn'])
            return 'const ' + json.dumps(o[1])[:80]
        return str(o)

    def prv(self, r):
        k = r[0]
        if k == 'use': return self.pop(r[1])
        if k == 'ref': return '&%s %s' % (r[1], self.ppl(r[2]))
        if k == 'bin' or k == 'cbin': return '%s(%s, %s)' % (r[1], self.pop(r[2]), self.pop(r[3]))
        if k == 'un': return '%s(%s)' % (r[1], self.pop(r[2]))
        if k == 'cast': return '%s as %s (%s)' % (self.pop(r[2]), self.tyname(r[3]), r[1])
        if k == 'discr': return 'discr(%s)' % self.ppl(r[1])
        if k == 'agg':
            n = r[1][0]
            if n in ('adt', 'closure', 'coroutine'): n += ' ' + self.tyname(r[1][1]) + (':%d' % r[1][2] if len(r[1]) > 2 else '')
            return '%s{%s}' % (n, ', '.join(self.pop(o) for o in r[2]))
        return str(r)

    def pfn(self, f):
        out = ['fn #%d %s  [%s:%s]' % (f['id'], f['name'], f.get('file'), f.get('line'))]
        if 'blocks' not in f: return out[0] + ' (no body)'
        names = {}
        for n, p in f['vars']:
            out.append('  debug %s => %s' % (n, self.ppl(p)))
        for i, t in enumerate(f['locals']):
            out.append('  let _%d: %s' % (i, self.tyname(t)))
        for i, (st, t) in enumerate(f['blocks']):
            out.append(' bb%d:' % i)
            for s in st:
                if s[0] == '=': out.append('    %s = %s   ;%s' % (self.ppl(s[1]), self.prv(s[2]), s[3]))
                else: out.append('    ' + str(s))
            k = t[0]
            if k == 'call':
                out.append('    %s = call %s(%s) -> %s   ;%s' % (self.ppl(t[3]), self.pop(t[1]), ', '.join(self.pop(a) for a in t[2]), t[4], t[6]))
            elif k == 'switch':
                out.append('    switch %s %s else %s' % (self.pop(t[1]), t[2], t[3]))
            elif k == 'drop': out.append('    drop %s: %s -> %s' % (self.ppl(t[1]), self.tyname(t[4]), t[2]))
            elif k == 'assert': out.append('    assert %s == %s %s -> %s' % (self.pop(t[1]), t[2], t[3][0], t[4]))
            else: out.append('    ' + str(t))
        return '\n'.join(out)

if __name__ == '__main__':
    d = Dump(sys.argv[1])
    for f in d.fns.values():
        if sys.argv[2] in f['name']:
            print(d.pfn(f)); print()
