"""The documented keys, and what each does to the text being edited (shared by C08 and C09)."""
from edit import *


# control characters, by letter; the README's table of bindings
CONTROL = {
    'a': 'home', 'b': 'left', 'c': 'quit', 'd': 'finish', 'e': 'end', 'f': 'right', 'g': 'discard', 'h': 'delete back', 'i': 'complete',
    'j': 'enter', 'k': 'kill right', 'l': 'clear', 'm': 'enter', 'n': 'next', 'p': 'previous', 't': 'info', 'u': 'kill left',
    'w': 'delete word', 'x': 'swap', 'y': 'yank', 'z': 'suspend', '\\': 'break', '[': 'escape',
}
SPECIAL = {'Tab': 'complete', 'Esc': 'escape', 'Enter': 'enter', 'Backspace': 'delete back', 'Delete': 'delete fore', 'Up': 'previous', 'Down': 'next',
           'Left': 'left', 'Right': 'right', 'Home': 'home', 'End': 'end'}


def action(kw, feat_completion=True, feat_history=True):
    """what a key is documented to do: (action, parameter)"""
    r = None
    if kw.get('raw'):
        k = kw['keyval']
        if k < 32: r = CONTROL.get(chr(k + 64).lower()), k
        elif k == 127: r = 'delete back', None
        elif k >= 0x80: r = 'free', None      # only ASCII arrives as raw text
        else: r = 'insert', k
    else:
        name, ch = kw['code']
        if name == 'Char' and kw.get('ctrl'):
            c = chr(ch).lower()
            if ch < 0x80 and chr(ch).isupper(): r = 'free', None
            elif '@' <= chr(ch).upper() <= '_': r = CONTROL.get(c), ord(c.upper()) & 31
            else: r = 'none', None
        elif name == 'Char' and ch in (0x2028, 0x2029): r = 'free', None
        elif kw.get('ctrl'): r = 'free', None
        elif name == 'Char': r = ('insert', ch) if not (ch < 32 or 0x7F <= ch < 0xA0) else ('none', None)
        elif name in SPECIAL: r = SPECIAL[name], {'Tab': 9, 'Esc': 27}.get(name)
        else: r = 'none', None
    if r[0] is None: r = 'unknown', r[1]
    if r[0] == 'complete' and not feat_completion: r = 'bell', None
    if r[0] in ('next', 'previous') and not feat_history: r = ('none' if kw.get('code', ('',))[0] in SPECIAL else 'unknown'), r[1]
    return r


class Judge:
    """is the text right at the end of a path?"""

    def __init__(self, e, x):
        self.e, self.x = e, x
        self.I, self.C, self.K = e.final(x, 'input'), e.final(x, 'input_cursor'), e.final(x, 'clipboard')
        self.I0, self.C0, self.K0 = (e.norm(x, v) for v in (e.I0, e.C0, e.K0))
        self.L0 = e.lenterm(self.I0)

    def part(self, a, b):
        return self.e.tidy(self.x, [('part', self.I0, a, b)])

    def text(self, v): return self.e.parts(self.x, v)
    def textis(self, ps): return self.e.same_text(self.x, self.text(self.I), ps)
    def clip(self, ps): return self.e.same_text(self.x, self.text(self.K), ps)
    def eq(self, a, b): return self.e.equal(self.x, a, b)
    def kept(self): return self.I == self.I0 or self.textis(self.part(self.e.c(0), self.L0))
    def clipkept(self): return self.K == self.K0
    def empty0(self): return self.e.ge0(self.x, self.e.plus(({}, 0), self.e.lin(self.L0), -1)) or self.e.isc(self.e.norm(self.x, self.L0)) == 0

    def scanned(self, pos, step):
        e, x = self.e, self.x
        return any(e.scan(x, p, self.C0, step, e.skipped(self.I0)) for p in [pos] + e.spell_end(x, pos))

    def white(self, s, pos):
        """was a white space character found where this position was arrived at?"""
        e = self.e
        if any(v == 1 and e.tab[k][0] == 'call' and pathtail(str(e.tab[k][1])) == 'is_whitespace' for k, v in s.eq.items()): return True
        # further on in a loop the fact is lost: what stops the loop is judged on the iterations analysed apart
        return any(e.tab[y][0] == 'phi' for y in e.lin(pos)[0])

    def completed(self):
        """'insert' or 'replace' when the text and cursor are what the completor's answer asks for"""
        e, x, Z = self.e, self.x, self.e.c(0)
        given = lambda v: e.tab[v][0] == 'fld' and any(e.tab[y][0] in ('opq', 'call', 'fresh', 'ret', 'sym') and 'complete' in str(e.tab[y]) for y in e.subs(v))
        if given(self.I) and given(self.C) and e.tab[self.I][1] == e.tab[self.C][1]: return 'replace'
        ps = self.text(self.I)
        new = [q for q in ps if q[0] == 'part' and given(q[1])]
        if len(new) == 1:
            t = new[0][1]
            if self.textis(self.part(Z, self.C0) + e.parts(x, t) + self.part(self.C0, self.L0)) and self.eq(self.C, e.mk(('op', 'Add', self.C0, e.lenterm(t)))): return 'insert'

    def why(self, act, par):
        """None when right, else what is wrong"""
        e, x = self.e, self.x
        Z = e.c(0)
        at = lambda v: self.eq(self.C, v)
        if act == 'kill right':
            if not self.textis(self.part(Z, self.C0)): return 'the text is not exactly what was left of the cursor'
            if not at(self.C0): return 'the cursor moved'
            if not (self.clip(self.part(self.C0, self.L0)) or self.clipkept() and self.eq(self.C0, self.L0)): return 'what was cut is not what can be yanked'
            return
        if act == 'kill left':
            if not self.textis(self.part(self.C0, self.L0)): return 'the text is not exactly what was right of the cursor'
            if not at(Z): return 'the cursor is not at the start'
            if not (self.clip(self.part(Z, self.C0)) or self.clipkept() and self.eq(self.C0, Z)): return 'what was cut is not what can be yanked'
            return
        if not self.clipkept(): return 'the clipboard changed'
        if act == 'yank':
            if not self.textis(self.part(Z, self.C0) + e.parts(x, self.K0) + self.part(self.C0, self.L0)): return 'the text is not the old one with what was cut inserted at the cursor'
            if not at(e.mk(('op', 'Add', self.C0, e.lenterm(self.K0)))): return 'the cursor is not after what was inserted'
            return
        if act == 'insert':
            if not self.textis(self.part(Z, self.C0) + [('char', e.c(par))] + self.part(self.C0, self.L0)): return 'the text is not the old one with the character inserted at the cursor'
            n = e.plus(e.lin(self.C), e.lin(self.C0), -1)
            if n != ({}, len(chr(par).encode())):
                def over(s, q):
                    return any(v == 0 and e.tab[k][0] == 'call' and pathtail(str(e.tab[k][1])) == 'is_char_boundary' and e.same(e.tab[k][3], q) and e.tab[k][2] == self.I for k, v in s.eq.items())
                if not e.scan(x, self.C, self.C0, 1, over): return 'the cursor is not right after what was inserted'
            return
        if act == 'home': return None if self.kept() and at(Z) else 'the cursor is not at the start of the unchanged text'
        if act == 'end': return None if self.kept() and at(self.L0) else 'the cursor is not at the end of the unchanged text'
        if act in ('left', 'right'):
            if not self.kept(): return 'the text changed'
            if at(self.C0): return None if self.eq(self.C0, Z if act == 'left' else self.L0) else 'the cursor did not move'
            return None if self.scanned(self.C, -1 if act == 'left' else 1) else 'the cursor did not move by one character'
        if act == 'delete back':
            if self.kept(): return None if self.eq(self.C0, Z) and at(Z) else 'nothing was deleted'
            if not self.textis(self.part(Z, self.C) + self.part(self.C0, self.L0)): return 'what was deleted is not what lies between the new cursor and the old one'
            return None if self.scanned(self.C, -1) else 'more or less than one character was deleted'
        if act == 'delete fore':
            if not at(self.C0): return 'the cursor moved'
            if self.kept(): return None if self.eq(self.C0, self.L0) else 'nothing was deleted'
            ps = self.text(self.I)
            want = self.part(Z, self.C0)
            if not e.same_text(x, ps[:len(want)], want): return 'something before the cursor changed'
            rest = ps[len(want):]
            if not rest: q = self.L0
            elif len(rest) == 1 and rest[0][0] == 'part' and rest[0][1] == self.I0 and e.same(rest[0][3], self.L0): q = rest[0][2]
            else: return 'something other than the next character changed'
            return None if self.scanned(q, 1) else 'more or less than one character was deleted'
        if act == 'delete word':
            if self.I == self.I0: return None if self.eq(self.C0, Z) and at(Z) else 'nothing was deleted'
            if not self.textis(self.part(Z, self.C) + self.part(self.C0, self.L0)): return 'what was deleted is not what lies between the new cursor and the old one'
            if at(Z) or self.white(x, self.C): return
            return 'a word boundary is not where the deletion stopped'
        if act == 'enter' or act in ('discard', 'finish'):
            if self.textis([]) and (at(Z)): return
            return 'the text is not cleared'
        if act in ('previous', 'next'):
            if self.kept() and at(self.C0): return
            if at(e.lenterm(self.I)): return
            return 'the cursor is not at the end of the recalled text'
        if act == 'complete':
            if self.kept() and at(self.C0): return
            return None if self.completed() else 'the result is neither the completion inserted at the cursor nor the line and cursor the completor gave'
        if act == 'free': return
        # everything else leaves the text alone
        return None if self.kept() and at(self.C0) else 'the text or the cursor changed'


class KeyFx(Edit, OneKey, Effects):
    """what one key does besides editing: responses, lines, callbacks, bells, requests, terminal commands, signals"""
    track = ('lines', 'resp', 'cb', 'bell', 'other', 'req', 'clear', 'stop', 'done')
    budget = 60
    entry_budget = 60
    max_steps = 600000

    def on_start(self, s):
        Effects.on_start(self, s)
        super().on_start(s)
        s.mon = dict(s.mon, scr='?')

    def on_term(self, s, m, g, args, line):
        Effects.on_term(self, s, m, g, args, line)
        if m.startswith('clear_all'): self.add(s, 'clear', 1)

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if 'resp' not in s.mon: return
        p = g['path']
        if re.search(r'signal::(kill|raise|killpg)$|libc::.*(kill|raise)$', p): self.add(s, 'stop', 1)

    def on_assume(self, s, t, k):
        # paths on which input is allowed and those on which it is not are not joined
        if 'scr' in s.mon and t == self.f0('input_allowed'): s.mon = dict(s.mon, allowed=k)

    def on_callback(self, s, fv, args, g, line):
        self.add(s, 'cb', (pathtail(g['path']),) + tuple(self.snap(s, a, None) for a in args))

    def vname(self, v):
        t = self.tab[v]
        if t[0] != 'agg': return None, ()
        return self.ty(t[1])['v'][t[2]]['name'].split('::')[-1], t[3]


RESPONSE = {'quit': 'Quit', 'info': 'Info', 'swap': 'Swap', 'break': 'Break', 'escape': 'Escape'}
KINDS = ('lines', 'resp', 'cb', 'bell', 'other', 'req', 'clear', 'stop')


def judge_effects(e, x, act, par):
    """None when this path does what the action is documented to do, else what is wrong"""
    J = Judge(e, x)
    got = {k: x.mon[k] for k in KINDS if x.mon[k]}
    resp = [e.vname(v) for v in got.get('resp', ())]
    may = {'resp'}
    want = None
    if act in RESPONSE: want = [(RESPONSE[act], ())]
    elif act == 'unknown': want = [('Unknown', (e.c(par),))]
    elif act == 'enter':
        if len(resp) != 1 or resp[0][0] != 'Input': return 'it sends %s instead of the entered line' % names(resp)
        if not e.same_text(x, e.parts(x, resp[0][1][0]), e.tidy(x, [('part', J.I0, e.c(0), J.L0)])) and resp[0][1][0] != J.I0 and not (J.empty0() and not e.parts(x, resp[0][1][0])):
            return 'what it sends is not the entered text'
        # the deadline of a notice about a history that cannot be saved, and the program's own autosave handler
        may |= {'other', 'cb'}
        if any(c[0] != 'call' for c in got.get('cb', ())): return 'it calls %s' % got['cb'][0][0]
    elif act == 'discard':
        if not resp and J.empty0(): pass
        elif len(resp) != 1 or resp[0][0] != 'Discarded': return 'it sends %s instead of the discarded text' % names(resp)
        elif resp[0][1][0] != J.I0 and not (J.empty0() and not e.parts(x, resp[0][1][0])): return 'what it sends is not the discarded text'
    elif act == 'finish':
        if J.empty0(): want = [('Finish', ())]
        elif resp: return 'it sends %s although there is input' % names(resp)
        elif e.isc(e.norm(x, J.L0)) is None and not any(J.I0 in e.subs(k) for k in list(x.eq) + list(x.ne)): return 'whether there is input is ignored'
    elif act == 'complete':
        may |= {'cb', 'req'}
        if resp: return 'it sends %s' % names(resp)
        if len(got.get('cb', ())) > 1: return 'the completor is called more than once'
    elif act == 'clear':
        may |= {'clear'}
        if resp: return 'it sends %s' % names(resp)
        if len(got.get('clear', ())) != 1: return 'the screen is cleared %d times' % len(got.get('clear', ()))
    elif act == 'suspend':
        may |= {'stop', 'lines'}
        if resp: return 'it sends %s' % names(resp)
        if len(got.get('stop', ())) != 1: return 'the process is stopped %d times' % len(got.get('stop', ()))
    elif act == 'bell':
        may |= {'bell'}
        if resp: return 'it sends %s' % names(resp)
    elif act in ('previous', 'next'):
        may |= {'bell'}
        if resp: return 'it sends %s' % names(resp)
    elif act == 'free': return None
    elif resp: return 'it sends %s' % names(resp)
    if want is not None and [(n, tuple(e.norm(x, a) for a in v)) for n, v in resp] != want: return 'it sends %s instead of %s' % (names(resp), names(want))
    more = sorted(set(got) - may)
    if more: return 'it also has other effects: %s' % ', '.join(more)
    return None


def names(resp):
    return ' and '.join(n or '?' for n, _ in resp) or 'nothing'
