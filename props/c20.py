"""Compile-fail witnesses: for each guarantee of ownership and thread-safety, a program that would break it is given to
the compiler against the crate as built from the current tree, and must be rejected with the error of that rule (by
error code, on the marked line, and with no other error), while a twin that differs only in respecting the rule must
be accepted, so the rejection cannot come from something unrelated. The reading and die methods are enumerated from the
type-checked program (public methods of InputOutput that return a response, or take the object by value); a reading
method on a shareable handle, or one that does not need exclusive access, is reported by name. Because the compiler
decides, a program that breaks the rule cannot be built at all."""
from owner import *
from concurrent.futures import ThreadPoolExecutor
from witness import *

PRE = '''#![allow(unused, deprecated)]
use liso::{InputOutput, Output, OutputOnly, Response};
use std::{rc::Rc, any::Any, cell::Cell, sync::Arc, thread, time::{Duration, Instant}};
fn need_send<T: Send>(t: T) {} fn need_static_send<T: Send + 'static>() {} fn need_sync<T: Sync>() {} fn need_clone<T: Clone>() {} fn need_copy<T: Copy>() {}
fn any<T>() -> T { loop {} }
'''
HIST = 'use liso::History;\n'
COMP = '''use liso::{Completor, Completion};
struct C<T>(T);
'''
COMPL = '''fn complete(&mut self, output: &Output, input: &str, cursor: usize, n: std::num::NonZeroU32) -> Option<Completion> { None }'''


def cases(feats, meths):
    c = []

    def case(name, what, good, bad, codes, pre=''):
        c.append((name, what, PRE + pre + good, PRE + pre + bad, codes))

    def must(name, what, good, pre=''):
        c.append((name, what, PRE + pre + good, None, ()))
    must('handle-shareable', 'output handles can be cloned, sent and shared between threads', '''
fn w(io: &InputOutput) {
    need_clone::<OutputOnly>(); need_static_send::<OutputOnly>(); need_sync::<OutputOnly>(); need_sync::<Output>(); need_static_send::<Output>();
    let a = io.clone_output(); let b = a.clone(); let c: OutputOnly = b.clone_output(); let d: &Output = &c; let e: OutputOnly = d.clone_output();
    thread::spawn(move || { a.println("x"); a.prompt("p", true, false); a.status(Some("s")); a.notice("n", Duration::from_secs(1)); a.bell(); a.send_custom(1u32); });
    let s = Arc::new(b); let t = s.clone(); thread::spawn(move || t.println("y")); thread::spawn(move || s.println("z"));
}''')
    must('owner-movable', 'the owner can be moved to another thread or task and read there', '''
fn w(mut io: InputOutput) { let o = io.clone_output(); thread::spawn(move || { io.read_blocking(); io.try_read(); io.println("x"); }); o.println("y"); }
fn a(mut io: InputOutput) { need_send(async move { io.read_async().await; io.die().await; }); }
fn r(x: Response) { need_send(x); }''')
    case('no-clone', 'the input/output object cannot be cloned', 'fn w() { need_clone::<OutputOnly>(); }', 'fn w() { need_clone::<InputOutput>(); //~\n}', ('E0277',))
    case('no-clone-call', 'the input/output object cannot be cloned', 'fn w(io: &InputOutput) { let _x: OutputOnly = io.clone_output(); }', 'fn w(io: &InputOutput) { let _x: InputOutput = io.clone(); //~\n}', ('E0308', 'E0599'))
    case('no-literal', 'no second owner can be made from the parts of the first', 'fn w(io: InputOutput) { let x = io; }', 'fn w(io: InputOutput) { let InputOutput { rx, .. } = io; //~\n}', ('E0451', 'E0026', 'E0509', 'E0616'))
    case('rx-private', 'the receiving end cannot be reached', 'fn w(io: &mut InputOutput) { io.try_read(); }', 'fn w(io: &mut InputOutput) { io.rx.try_recv(); //~\n}', ('E0616', 'E0609'))
    for m, (args, isasync) in sorted(meths.items()):
        call = 'io.%s(%s)' % (m, args)
        case('reader-exclusive:' + m, '%s needs exclusive access to the owner' % m, 'fn w(io: &mut InputOutput) { let _ = %s; }' % call, 'fn w(io: &InputOutput) { let _ = %s; //~\n}' % call, ('E0596',))
        for h in ('OutputOnly', 'Output'):
            case('reader-owner-only:%s:%s' % (m, h), '%s cannot be called on an %s' % (m, h), 'fn w(io: &mut InputOutput) { let _ = %s; }' % call, 'fn w(io: &mut %s) { let _ = %s; //~\n}' % (h, call), ('E0599', 'E0308'))
        if isasync:
            case('one-reader:' + m, 'only one %s can be pending at a time' % m, 'async fn w(io: &mut InputOutput) { let a = %s; a.await; let b = %s; b.await; }' % (call, call),
                 'async fn w(io: &mut InputOutput) { let a = %s; let b = %s; //~\n a.await; b.await; }' % (call, call), ('E0499',))
            case('pending-reader:' + m, 'nothing else can read while a %s is pending' % m, 'async fn w(io: &mut InputOutput) { let a = %s; a.await; io.try_read(); }' % call,
                 'async fn w(io: &mut InputOutput) { let a = %s; io.try_read(); //~\n a.await; }' % call, ('E0499',))
    for m, aw in (('blocking_die', ''), ('die', '.await')):
        kw = 'async fn' if aw else 'fn'
        case('after-%s' % m, 'the owner cannot be used after %s' % m, '%s w(mut io: InputOutput) { io.try_read(); io.%s()%s; }' % (kw, m, aw), '%s w(mut io: InputOutput) { io.%s()%s; io.try_read(); //~\n}' % (kw, m, aw), ('E0382',))
        case('output-after-%s' % m, 'the owner cannot be used for output after %s' % m, '%s w(io: InputOutput) { io.println("x"); io.%s()%s; }' % (kw, m, aw), '%s w(io: InputOutput) { io.%s()%s; io.println("x"); //~\n}' % (kw, m, aw), ('E0382',))
        case('borrowed-%s' % m, '%s needs the object itself, not a reference to it' % m, '%s w(io: InputOutput) { io.%s()%s; }' % (kw, m, aw), '%s w(io: &mut InputOutput) { io.%s() //~\n%s; }' % (kw, m, aw), ('E0507',))
    case('die-pending', 'the owner cannot be used while die is pending', 'async fn w(mut io: InputOutput) { io.try_read(); let f = io.die(); f.await; }', 'async fn w(mut io: InputOutput) { let f = io.die(); io.try_read(); //~\n f.await; }', ('E0382',))
    case('callback-send', 'a suspended callback must be Send', 'fn w(o: &Output) { let x = Arc::new(1); o.suspend_and_run(move || { let _y = &x; }); }', 'fn w(o: &Output) { let x = Rc::new(1); o.suspend_and_run(move || { let _y = &x; }); //~\n}', ('E0277',))
    case('callback-static', 'a suspended callback must not borrow', 'fn w(o: &Output) { let n = 1; o.suspend_and_run(move || { let _y = n; }); }', 'fn w(o: &Output, s: &u8) { o.suspend_and_run(move || { let _y = s; }); //~\n}', ('E0521', 'E0597', 'E0373', 'E0621'))
    case('custom-send', 'a custom response must be Send', 'fn w(o: &Output) { o.send_custom(Arc::new(1)); }', 'fn w(o: &Output) { o.send_custom(Rc::new(1)); //~\n}', ('E0277',))
    case('custom-box-send', 'a boxed custom response must be Send', 'fn w(o: &Output, b: Box<dyn Any + Send>) { o.send_custom_box(b); }', 'fn w(o: &Output, b: Box<dyn Any>) { o.send_custom_box(b); //~\n}', ('E0308', 'E0277'))
    case('custom-static', 'a custom response must not borrow', 'fn w(o: &Output) { o.send_custom(String::new()); }', 'fn w(o: &Output, s: &String) { o.send_custom(s); //~\n}', ('E0521', 'E0597', 'E0621'))
    if 'history' in feats:
        for nm, end, kw in (('drop', 'drop(io)', 'fn'), ('blocking_die', 'io.blocking_die()', 'fn'), ('die', 'io.die().await', 'async fn')):
            case('history-outlives:' + nm, 'a borrowed history cannot outlive the session (%s)' % nm, '%s w(io: InputOutput) { let h = io.read_history(); h.get_lines(); drop(h); %s; }' % (kw, end),
                 '%s w(io: InputOutput) { let h = io.read_history(); %s; //~\n h.get_lines(); }' % (kw, end), ('E0505',), HIST)
        case('history-returned', 'a borrowed history cannot be returned without its session', 'fn w(io: &InputOutput) -> std::sync::RwLockReadGuard<\'_, History> { io.read_history() }',
             'fn w(io: InputOutput) -> std::sync::RwLockReadGuard<\'static, History> { io.read_history() //~\n}', ('E0515', 'E0597'), HIST)
        case('history-lines', 'borrowed history lines cannot outlive the session', 'fn w(io: InputOutput) { let h = io.read_history(); let l = h.get_lines(); l.len(); drop(h); drop(io); }',
             'fn w(io: InputOutput) { let h = io.read_history(); let l = h.get_lines(); drop(h); //~\n l.len(); }', ('E0505',), HIST)
        case('history-shared', 'the session\'s history cannot be changed through a read lock', 'fn w(io: &InputOutput) { let h = io.read_history(); h.get_lines(); }', 'fn w(io: &InputOutput) { let mut h = io.read_history(); h.add_line(String::new()); //~\n}', ('E0596',), HIST)
        case('autosave-send', 'an autosave handler must be Send and Sync', 'fn w(h: &mut History) { let x = Arc::new(1); h.set_autosave_handler(Some(Box::new(move |_| { let _y = &x; Ok(()) }))); }',
             'fn w(h: &mut History) { let x = Rc::new(1); h.set_autosave_handler(Some(Box::new(move |_| { let _y = &x; Ok(()) }))); //~\n}', ('E0277',), HIST)
        must('history-movable', 'a history can be given to and taken from the session', 'fn w(io: &InputOutput) { need_static_send::<History>(); need_sync::<History>(); let h: History = io.swap_history(History::new()); }', HIST)
    if 'completion' in feats:
        case('completor-send', 'a completor must be Send', 'impl Completor for C<Arc<u8>> { %s }' % COMPL, 'impl Completor for C<Rc<u8>> { %s } //~' % COMPL, ('E0277',), COMP)
        case('completor-static', 'a completor given to the session must not borrow', 'impl<T: Send> Completor for C<T> { %s }\nfn w(o: &Output) { o.set_completor(Some(Box::new(C(1)))); o.set_completor(None); }' % COMPL,
             'impl<T: Send> Completor for C<T> { %s }\nfn w(o: &Output, s: &u8) { o.set_completor(Some(Box::new(C(s)))); //~\n}' % COMPL, ('', 'E0521', 'E0597', 'E0621', 'E0759'), COMP)
        must('completor-boxed', 'a boxed completor can be sent', 'fn w() { need_static_send::<Box<dyn Completor>>(); }', COMP)
    if 'global' in feats:
        must('global-handle', 'the global handle is an output handle', 'fn w() { let o: OutputOnly = liso::output(); thread::spawn(|| { liso::output().println("x"); }); }')
        case('global-no-read', 'the global handle cannot read', 'fn w() { liso::output().println("x"); }', 'fn w() { liso::output().try_read(); //~\n}', ('E0599',))
    return c


def check(ctx):
    sets = {'all': None, 'default': None, 'none': set()}
    decl, implied, default = feature_names()
    sets['all'], sets['default'] = set(decl), set(default)
    names = {}
    for n in ('read_async', 'read', 'read_blocking', 'blocking_read', 'try_read'): names[n] = ('', n in ('read_async', 'read'))
    names['read_timeout'] = ('Duration::from_secs(1)', False)
    names['read_deadline'] = ('Instant::now()', False)
    d = ctx.dump('default')
    found = giving(d, ('InputOutput',))
    extra = {n: (', '.join(['any()'] * a), False) for n, a in found.items() if n not in names}
    stray = giving(d, ('Output', 'OutputOnly'))
    n = 0
    for feat, fs in sets.items():
        cr = Crate(fs, {'all': 23, 'default': 21, 'none': 20}[feat])
        if not cr.ok: raise Broken('the crate does not compile: ' + '; '.join(cr.errors))
        ms = dict(names)
        for nm, (a, x) in extra.items():
            if callable_(cr, 'InputOutput', nm, a): ms[nm] = (a, x)
        for nm, a in stray.items():
            for h in ('Output', 'OutputOnly'):
                if callable_(cr, h, nm, ', '.join(['any()'] * a)): ctx.bad('%s:handle-reads:%s' % (feat, nm), '%s::%s gives responses to someone who does not own the session' % (h, nm))
        cs = cases(fs, ms)
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda c: (cr.accepts(c[2]), cr.accepts(c[3]) if c[3] else None), cs))
        for (name, what, good, bad, codes), (g, b) in zip(cs, res):
            n += 1
            key = '%s:%s' % (feat, name)
            if not g[0]:
                ctx.bad(key, 'a program that respects this is rejected: %s [%s]' % ('; '.join('%s: %s' % x[:2] for x in g[1][:2]), what))
                continue
            if b is None: ctx.ok(key, what)
            elif b[0]: ctx.bad(key, 'the compiler accepts a program that breaks this [%s]: %s' % (what, offending(bad)))
            else:
                mark = [i for i, l in enumerate(bad.split('\n'), 1) if '//~' in l][0]
                other = [x for x in b[1] if not (x[0] in codes and x[2] == mark)]
                ctx.ob(not other, key, what, 'the breaking program is rejected, but for another reason: %s' % '; '.join('%s: %s' % x[:2] for x in other[:2]))
    ctx.analysed['methods giving responses'] = {'owner': sorted(found), 'handles': sorted(stray)}
    ctx.floor('witness pairs', n, 100)
    ctx.floor('reading methods', len(names), 7)


def offending(t):
    return [l for l in t.split('\n') if '//~' in l][0].replace('//~', '').strip()


def callable_(cr, ty, meth, args):
    return cr.accepts(PRE + 'fn w(mut io: %s) { let _ = io.%s(%s); }' % (ty, meth, args))[0]
