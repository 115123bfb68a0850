"""Compile-fail witnesses.  Each rule is a family of client programs that must
be rejected by the type checker and a twin program, differing only in the
marked line, that must be accepted.  A witness counts only if every error is of
the expected kind and one of them is on the marked line, so that an unrelated
change of the interface cannot pass for a rejection.  The programs are checked
(never run) by rustc against the current tree's metadata."""
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from .common import Anchor

ID = 'C25'
TRUSTED = ['the Rust type and borrow checker']

PRE = '''#![allow(unused, dead_code, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes)]
use mortal::{Terminal, TerminalReadGuard, TerminalWriteGuard, Screen, PrepareConfig, PrepareState, Event, Size, Signal, SignalSet};
use mortal::screen::{ScreenReadGuard, ScreenWriteGuard};
fn term() -> Terminal { Terminal::new().unwrap() }
fn screen() -> Screen { Screen::new(PrepareConfig::default()).unwrap() }
fn need_send<T: Send>(_: T) {}
fn need_send_ty<T: Send>() {}
fn need_sync_ty<T: Sync>() {}
fn need_clone_ty<T: Clone>() {}
'''
BORROW = ['E0505', 'E0515', 'E0597', 'E0716', 'E0499', 'E0502', 'E0506', 'E0521', 'E0713']


def cases():
    """(rule, name, rejected program, accepted twin, codes); //~ marks the line at fault."""
    out = []

    def add(rule, name, bad, good, codes):
        out.append((rule, name, bad, good, codes))
    G = []
    for ty, mk in (('Terminal', 'term()'), ('Screen', 'screen()')):
        for m, g in (('lock_read', 'ReadGuard'), ('lock_write', 'WriteGuard')):
            G.append((ty, mk, m, ty + g, '.unwrap()'))
            G.append((ty, mk, 'try_' + m, ty + g, '.unwrap()'))
        G.append((ty, mk, 'borrow_term_write_guard', ty + 'WriteGuard', ''))
    for ty, mk, m, g, un in G:
        n = '%s::%s' % (ty, m)
        add('guard-within-owner', n + ' kept after drop',
            'fn f() { let t = %s; let g = t.%s()%s;\n drop(t); //~\n let h = g; }' % (mk, m, un),
            'fn f() { let t = %s; let g = t.%s()%s;\n let h = g;\n drop(h); drop(t); }' % (mk, m, un), BORROW)
        add('guard-within-owner', n + ' returned',
            'fn f() -> %s<\'static> { let t = %s;\n t.%s()%s //~\n }' % (g, mk, m, un),
            'fn f(t: &%s) -> %s<\'_> { \n t.%s()%s \n }' % (ty, g, m, un), BORROW)
        add('guard-within-owner', n + ' stored longer',
            'fn f() { let mut v: Vec<%s> = vec![]; { let t = %s;\n v.push(t.%s()%s); //~\n } v.clear(); }' % (g, mk, m, un),
            'fn f() { let t = %s; let mut v: Vec<%s> = vec![]; {\n v.push(t.%s()%s);\n } v.clear(); }' % (mk, g, m, un), BORROW)
        add('owner-not-moved', n + ' owner moved while locked',
            'fn f() { let t = %s; let g = t.%s()%s;\n let u = t; //~\n drop(g); }' % (mk, m, un),
            'fn f() { let t = %s; let g = t.%s()%s;\n drop(g);\n let u = t; }' % (mk, m, un), BORROW)
        if un:
            # also through the lock result itself (poisoned or not)
            add('guard-within-owner', n + ' result kept after drop',
                'fn f() { let t = %s; let g = t.%s();\n drop(t); //~\n let h = g; }' % (mk, m),
                'fn f() { let t = %s; let g = t.%s();\n let h = g;\n drop(h); drop(t); }' % (mk, m), BORROW)
    for ty, mk, m in (('Terminal', 'term()', 'lock_write'), ('Screen', 'screen()', 'lock_write')):
        n = '%sWriteGuard::borrow_term_write_guard' % ty
        add('guard-within-owner', n + ' two at once',
            'fn f() { let t = %s; let mut g = t.%s().unwrap(); let a = g.borrow_term_write_guard();\n let b = g.borrow_term_write_guard(); //~\n drop(a); }' % (mk, m),
            'fn f() { let t = %s; let mut g = t.%s().unwrap(); let a = g.borrow_term_write_guard();\n drop(a);\n let b = g.borrow_term_write_guard(); }' % (mk, m), BORROW)
        add('guard-within-owner', n + ' outlives the guard',
            'fn f() { let t = %s; let mut g = t.%s().unwrap(); let a = g.borrow_term_write_guard();\n drop(g); //~\n let b = a; }' % (mk, m),
            'fn f() { let t = %s; let mut g = t.%s().unwrap(); let a = g.borrow_term_write_guard();\n let b = a;\n drop(g); }' % (mk, m), BORROW)
    add('one-screen-per-terminal', 'terminal given to two screens',
        'fn f() { let t = term(); let a = Screen::with_terminal(t, PrepareConfig::default());\n let b = Screen::with_terminal(t, PrepareConfig::default()); //~\n drop(a); }',
        'fn f() { let t = term(); let a = Screen::with_terminal(t, PrepareConfig::default());\n let b = Screen::with_terminal(term(), PrepareConfig::default());\n drop(a); }', ['E0382'])
    add('one-screen-per-terminal', 'terminal used after given to a screen',
        'fn f() { let t = term(); let a = Screen::with_terminal(t, PrepareConfig::default());\n t.flush_name(); //~\n }'.replace('t.flush_name()', 't.name()'),
        'fn f() { let t = term();\n t.name();\n let a = Screen::with_terminal(t, PrepareConfig::default()); }', ['E0382'])
    add('one-screen-per-terminal', 'terminal given away while locked',
        'fn f() { let t = term(); let g = t.lock_write().unwrap();\n let a = Screen::with_terminal(t, PrepareConfig::default()); //~\n drop(g); }',
        'fn f() { let t = term(); let g = t.lock_write().unwrap(); drop(g);\n let a = Screen::with_terminal(t, PrepareConfig::default());\n }', BORROW)
    add('one-screen-per-terminal', 'terminal duplicated', 'fn f() {\n need_clone_ty::<Terminal>(); //~\n }', 'fn f() {\n need_send_ty::<Terminal>();\n }', ['E0277'])
    add('one-screen-per-terminal', 'screen duplicated', 'fn f() {\n need_clone_ty::<Screen>(); //~\n }', 'fn f() {\n need_send_ty::<Screen>();\n }', ['E0277'])
    add('state-linear', 'state cloned', 'fn f() {\n need_clone_ty::<PrepareState>(); //~\n }', 'fn f() {\n need_clone_ty::<PrepareConfig>();\n }', ['E0277'])
    add('state-linear', 'state restored twice',
        'fn f() { let t = term(); let s = t.prepare(PrepareConfig::default()).unwrap(); t.restore(s).unwrap();\n t.restore(s).unwrap(); //~\n }',
        'fn f() { let t = term(); let s = t.prepare(PrepareConfig::default()).unwrap(); let s2 = t.prepare(PrepareConfig::default()).unwrap(); t.restore(s2).unwrap();\n t.restore(s).unwrap();\n }', ['E0382'])
    add('state-linear', 'state restored twice through guards',
        'fn f() { let t = term(); let mut r = t.lock_read().unwrap(); let mut w = t.lock_write().unwrap(); let s = r.prepare_with_lock(&mut w, PrepareConfig::default()).unwrap();\n r.restore_with_lock(&mut w, s).unwrap();\n r.restore_with_lock(&mut w, s).unwrap(); //~\n }',
        'fn f() { let t = term(); let mut r = t.lock_read().unwrap(); let mut w = t.lock_write().unwrap(); let s = r.prepare_with_lock(&mut w, PrepareConfig::default()).unwrap();\n r.restore_with_lock(&mut w, s).unwrap();\n }', ['E0382'])
    add('state-linear', 'state made up', 'fn f() -> PrepareState {\n Default::default() //~\n }', 'fn f() -> PrepareConfig {\n Default::default() \n }', ['E0277'])
    for how, pre in (('Terminal::prepare', 'let t = term();\n t.prepare(PrepareConfig::default()).unwrap();'),
                     ('TerminalReadGuard::prepare', 'let t = term(); let mut r = t.lock_read().unwrap();\n r.prepare(PrepareConfig::default()).unwrap();'),
                     ('TerminalReadGuard::prepare_with_lock', 'let t = term(); let mut r = t.lock_read().unwrap(); let mut w = t.lock_write().unwrap();\n r.prepare_with_lock(&mut w, PrepareConfig::default()).unwrap();')):
        a, b = pre.split('\n')
        add('state-not-ignored', how, '#[deny(unused_must_use)] fn f() { %s\n %s //~\n }' % (a, b),
            '#[deny(unused_must_use)] fn f() { %s\n let s = %s\n }' % (a, b.strip()), ['unused_must_use'])
    for g, twin in (('TerminalReadGuard', 'Terminal'), ('TerminalWriteGuard', 'Terminal'), ('ScreenReadGuard', 'Screen'), ('ScreenWriteGuard', 'Screen')):
        add('guard-thread-bound', g + ' sent', 'fn f<\'a>() {\n need_send_ty::<%s<\'a>>(); //~\n }' % g, 'fn f<\'a>() {\n need_send_ty::<%s>();\n }' % twin, ['E0277'])
        m = 'lock_read' if 'Read' in g else 'lock_write'
        mk = 'term()' if 'Terminal' in g else 'screen()'
        add('guard-thread-bound', g + ' moved into a scoped thread',
            'fn f() { let t = %s; let g = t.%s().unwrap(); std::thread::scope(|s| {\n s.spawn(move || { let h = g; }); //~\n }); }' % (mk, m),
            'fn f() { let t = %s; std::thread::scope(|s| {\n s.spawn(|| { let h = t.%s().unwrap(); });\n }); }' % (mk, m), ['E0277'])
        add('guard-exclusive', g + ' duplicated', 'fn f<\'a>() {\n need_clone_ty::<%s<\'a>>(); //~\n }' % g, 'fn f<\'a>() {\n need_sync_ty::<%s>();\n }' % twin, ['E0277'])
    for m in ('t.read_event(None)', 't.wait_event(None)'):
        for ty, mk in (('Terminal', 'term()'), ('Screen', 'screen()')):
            add('reading-exclusive', '%sReadGuard %s needs exclusive access' % (ty, m.split('.')[1]),
                'fn f(t: &%sReadGuard) {\n %s; //~\n }' % (ty, m), 'fn f(t: &mut %sReadGuard) {\n %s;\n }' % (ty, m), ['E0596'])
    for ty in ('Terminal', 'Screen'):
        for m in ("t.write_char('x')", 't.write_str("x")', 't.clear_screen()', 't.clear_attributes()', 't.bold()', 't.add_style(mortal::Style::BOLD)'):
            add('writing-exclusive', '%sWriteGuard %s needs exclusive access' % (ty, m.split('.')[1].split('(')[0]),
                'fn f(t: &%sWriteGuard) {\n %s; //~\n }' % (ty, m), 'fn f(t: &mut %sWriteGuard) {\n %s;\n }' % (ty, m), ['E0596'])
    U = 'use std::io; use std::path::Path; use std::time::Duration; use mortal::unix::{OpenTerminalExt, TerminalExt};\n'
    add('sealed', 'OpenTerminalExt implemented outside', U + 'struct X;\nimpl OpenTerminalExt for X { //~\n fn from_path<P: AsRef<Path>>(path: P) -> io::Result<Self> { loop {} } }',
        U + 'struct X;\nimpl X {\n fn from_path<P: AsRef<Path>>(path: P) -> io::Result<Terminal> { <Terminal as OpenTerminalExt>::from_path(path) } }', ['E0277'])
    add('sealed', 'TerminalExt implemented outside', U + 'struct X;\nimpl TerminalExt for X { //~\n fn read_raw(&mut self, buf: &mut [u8], timeout: Option<Duration>) -> io::Result<Option<Event>> { loop {} } }',
        U + 'struct X;\nimpl X {\n fn read_raw(t: &mut Terminal, buf: &mut [u8], timeout: Option<Duration>) -> io::Result<Option<Event>> { t.read_raw(buf, timeout) } }', ['E0277'])
    return out


POS = [('shared-between-threads', ty + ' is ' + tr, 'fn f() {\n need_%s_ty::<%s>(); //~\n }' % (tr.lower(), ty))
       for ty in ('Terminal', 'Screen', 'PrepareState', 'PrepareConfig', 'Event', 'Signal', 'SignalSet', 'Size') for tr in ('Send', 'Sync')]


def library():
    """Metadata of the current tree -> rustc arguments."""
    with build.Lock():
        crate = build.stage('cf', False)
        e = build.env()
        tgt = os.path.join(build.BUILD, 'target-cf')
        e['CARGO_TARGET_DIR'] = tgt
        o = build.sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--manifest-path', os.path.join(crate, 'Cargo.toml')], crate, e, 'compiling /repo')
        meta = None
        dirs = set()
        for line in o.splitlines():
            if line.startswith('{'):
                m = json.loads(line)
                if m.get('reason') == 'compiler-artifact':
                    dirs |= {os.path.dirname(f) for f in m['filenames']}
                if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'mortal':
                    meta = [f for f in m['filenames'] if f.endswith('.rmeta')]
        if not meta:
            raise Anchor('metadata of the library')
        edition = '2018'
        return ['rustc', '+nightly', '--edition', edition, '--crate-type', 'lib', '--emit=metadata', '--error-format=json',
                '--extern', 'mortal=' + meta[0]] + [x for d in sorted(dirs) for x in ('-L', 'dependency=' + d)], e


def compile_one(a):
    cmd, e, src, d, n = a
    f = os.path.join(d, 'w%d.rs' % n)
    with open(f, 'w') as h:
        h.write(src)
    p = subprocess.run(cmd + ['-o', os.path.join(d, 'w%d.rmeta' % n), '--crate-name', 'w%d' % n, f], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    errs = []
    for line in p.stderr.splitlines():
        if line.startswith('{'):
            m = json.loads(line)
            if m.get('level') == 'error' and m.get('spans'):
                errs.append((m['code']['code'] if m.get('code') else None, [(s['line_start'], s['line_end']) for s in m['spans']], m['message']))
    if p.returncode and not errs:
        errs.append((None, [], p.stderr[-400:]))
    return p.returncode, errs


def run(ctx):
    cmd, e = library()
    d = os.path.join(build.BUILD, 'cf')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    jobs = []
    cs = cases()
    for rule, name, bad, good, codes in cs:
        jobs.append(PRE + bad)
        jobs.append(PRE + good)
    for rule, name, src in POS:
        jobs.append(PRE + src)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, [(cmd, e, s, d, i) for i, s in enumerate(jobs)]))
    broken = []
    for i, (rule, name, bad, good, codes) in enumerate(cs):
        rb, eb = res[2 * i]
        rg, eg = res[2 * i + 1]
        if rg:
            broken.append('%s: the accepted twin does not compile: %s' % (name, eg[0][2]))
            continue
        if rb == 0:
            ctx.bad(rule)
            ctx.violate(rule, name, 'the misuse compiles', loc='witness program', path=(bad.splitlines()))
            continue
        line = [n for n, l in enumerate((PRE + bad).splitlines(), 1) if '//~' in l][0]
        good_codes = all(c in codes for c, _, _ in eb)
        on = any(a <= line <= b for _, sp, _ in eb for a, b in sp)
        if not (good_codes and on):
            broken.append('%s: rejected for another reason: %s' % (name, eb[0]))
            continue
        ctx.ok(rule)
        ctx.sample('rejected programs', '%s: %s %s' % (name, eb[0][0], eb[0][2]))
    for (rule, name, src), (r, er) in zip(POS, res[2 * len(cs):]):
        if r == 0:
            ctx.ok(rule)
        elif all(c == 'E0277' for c, _, _ in er):
            ctx.bad(rule)
            ctx.violate(rule, name, 'does not hold', loc=er[0][2])
        else:
            broken.append('%s: %s' % (name, er[0]))
    ctx.floor('witness programs', len(jobs), 150)
    shutil.rmtree(d)
    if broken and not ctx.viol:
        raise Anchor('witness programs: ' + '; '.join(broken[:4]))
