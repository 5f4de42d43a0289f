"""Feature matrix and macro witnesses: the crate is type-checked by the compiler in every combination of its declared
features (and with every feature that an optional dependency implies), and against each of these builds a witness
crate without a single import uses every exported macro that exists in the combination through its full path,
covering every form the macros document: each style keyword in its set, add, remove and toggle form, each colour
name in both spellings, colour and text expressions, reset, plain, ANSI text and comma variants. The witness also
defines items of its own with the names of the crate's items, so that a macro that relied on a name from the
caller's scope would be rejected."""
import itertools
from concurrent.futures import ThreadPoolExecutor
from witness import *

STYLES = ('bold', 'dim', 'underline', 'inverse', 'reverse', 'italic')
COLORS = ('Black', 'Red', 'Green', 'Yellow', 'Blue', 'Cyan', 'Magenta', 'White')
SLOTS = 4


def witness(feats):
    f = []
    piece = []
    for s in STYLES:
        for pre in ('', '+', '-', '^'): piece.append(pre + s)
    piece += ['plain', 'reset', 'bold +underline', 'ansi "x"', 'ansi ansi_text()', '"text"', '{ 1 + 1; "block" }', 'text()', 'std::string::String::from("s")', 'TEXT']
    for g in ('fg', 'bg'):
        for c in COLORS: piece += ['%s = %s' % (g, c), '%s = %s' % (g, c.lower())]
        piece += ['%s = None' % g, '%s = none' % g, '%s = color()' % g, '%s = COLOR' % g, '%s = (color())' % g, '%s = ::core::option::Option::Some(::liso::Color::Red)' % g]
    f.append('''
#![allow(dead_code, non_camel_case_types)]
pub struct Color; pub struct Style; pub struct Line; pub struct Output; pub fn output() {}
const TEXT: &str = "text";
const COLOR: ::core::option::Option<::liso::Color> = ::core::option::Option::None;
fn text() -> ::std::string::String { ::std::string::String::new() }
fn ansi_text() -> &'static str { "" }
fn color() -> ::core::option::Option<::liso::Color> { ::core::option::Option::None }
''')
    n = 0

    def fn(body, ret=''):
        nonlocal n
        n += 1
        f.append('pub fn f%d() %s { %s }\n' % (n, ret, body))
    for p in piece:
        fn('::liso::liso!(%s)' % p, '-> ::liso::Line')
        fn('::liso::liso!("a", %s, "b",)' % p, '-> ::liso::Line')
        fn('let mut l = ::liso::Line::new(); ::liso::liso_add!(l, %s, "b"); ::liso::liso_add!(l, %s);' % (p, p))
    fn('::liso::liso!()', '-> ::liso::Line')
    fn('let mut l = ::liso::Line::new(); ::liso::liso_add!(l); ::liso::liso_add!(l, "x", bold "y", fg = red, bg = None, +dim, "z",,);')
    fn('let _x: ::liso::Line = ::liso::liso!(fg = green, bold "x" , -bold underline, bg = blue, text(), reset, "y");')
    for c in COLORS + ('None',): fn('::liso::color!(%s)' % c, '-> ::core::option::Option<::liso::Color>'); fn('::liso::color!(%s)' % c.lower(), '-> ::core::option::Option<::liso::Color>')
    fn('::liso::color!(color())', '-> ::core::option::Option<::liso::Color>')
    ms = []
    if 'global' in feats: ms.append('println')
    if 'global' in feats and 'wrap' in feats: ms.append('wrapln')
    for m in ms:
        fn('::liso::%s!("a");' % m)
        fn('::liso::%s!();' % m)
        fn('::liso::%s!(fg = red, bold "a", -bold, text(), reset, ansi "b");' % m)
        fn('if true { ::liso::%s!("a") } else { ::liso::%s!("b", bold "c") }' % (m, m))
    return ''.join(f), n, ms


def check(ctx):
    decl, implied, default = feature_names()
    for need in ('wrap', 'history', 'completion', 'global', 'serde', 'capture-stderr'):
        ctx.ob(need in decl, 'feature:' + need, 'the optional feature %s exists' % need, 'the optional feature %s is gone' % need)
    if len(decl) <= 7: combos = [set(c) for k in range(len(decl) + 1) for c in itertools.combinations(decl, k)]
    else:
        combos = [set(), set(decl)] + [set(c) for k in (1, 2, 3) for c in itertools.combinations(decl, k)] + [set(decl) - set(c) for k in (1, 2) for c in itertools.combinations(decl, k)]
    for i in implied: combos += [{i}, set(decl) | {i}]
    uniq = []
    for c in combos:
        if c not in uniq: uniq.append(c)
    # combinations with the same dependencies go to the same slot
    uniq.sort(key=lambda c: ('serde' in c, 'capture-stderr' in c, sorted(c)))
    per = (len(uniq) + SLOTS - 1) // SLOTS
    res = {}

    def slot(k):
        for c in uniq[k * per:(k + 1) * per]:
            cr = Crate(c, k)
            out = (cr.ok, cr.errors, None)
            if cr.ok:
                text, n, ms = witness(c)
                good, errs = cr.accepts(text)
                ls = text.split('\n')
                out = (True, [], (good, ['%s: %s in `%s`' % (a, b.split('\n')[0], ls[l - 1].strip() if 0 < l <= len(ls) else '?') for a, b, l in errs], n, ms))
            res[frozenset(c)] = out
    with ThreadPoolExecutor(SLOTS) as ex: list(ex.map(slot, range(SLOTS)))
    forms = 0
    for c in uniq:
        ok, errs, w = res[frozenset(c)]
        name = '+'.join(sorted(c)) or 'none'
        ctx.ob(ok, 'combination:' + name, 'the crate compiles with features: %s' % name, 'with features %s the crate does not compile: %s' % (name, '; '.join(errs[:3])))
        if w is None: continue
        good, errs, n, ms = w
        forms += n
        ctx.ob(good, 'macros:' + name, 'liso!, liso_add!, color!%s work by full path' % ''.join(', %s!' % m for m in ms), 'with features %s a use of an exported macro by its full path is rejected: %s' % (name, '; '.join(errs[:3])))
    ctx.floor('feature combinations', len(uniq), 64)
    ctx.floor('macro uses type-checked', forms, 5000)
    ctx.assumptions.append('the host target (Linux) is the one checked; other targets need crates that are not installed')
    ctx.analysed['features'] = {'declared': decl, 'implied': implied, 'default': default}
