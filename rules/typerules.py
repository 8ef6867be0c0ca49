"""Type-level witnesses: each item is a program that must be accepted, with twins, one construct away, that must be refused."""
import re
import typing_
from typing_ import Item
I = []

PRE = '''#![allow(unused, dead_code)]
extern crate alloc; extern crate std;
use alloc::{borrow::Cow, boxed::Box, collections::LinkedList, ffi::CString, rc::Rc, string::String, sync::Arc, vec::Vec};
use core::{borrow::{Borrow, BorrowMut}, cell::{Cell, RefCell}, ffi::CStr, marker::PhantomData, mem::MaybeUninit, ops::{Deref, DerefMut, Index, IndexMut}, str::{Chars, CharIndices}};
use std::{ffi::OsStr, path::Path};
use oct::{PrimitiveDiscriminant, SizedIter, SizedSlice, SizedStr, Slot, decode::{Decode, DecodeBorrowed, Input}, encode::{Encode, Output, SizedEncode}};
fn sink<T>(_: T) {}
fn send<T: Send + ?Sized>() {} fn sync<T: Sync + ?Sized>() {} fn copy<T: Copy>() {} fn clone<T: Clone>() {}
'''

# ---------------------------------------------------------------- C22  views
G = {'SizedSlice': ('T, const N: usize', 'SizedSlice<T, N>', 'T: \'static, const N: usize'), 'SizedStr': ('const N: usize', 'SizedStr<N>', None), 'SizedIter': ('T, const N: usize', 'SizedIter<T, N>', None), 'Slot': ('T', 'Slot<T>', None), 'Output': ("'o", "Output<'o>", None)}
VIEWS = [   # container, expression, kind of borrow, type of the view with lifetime 'V
    ('SizedSlice', 'x.as_slice()', '&', "&'V [T]"), ('SizedSlice', 'AsRef::<[T]>::as_ref(x)', '&', "&'V [T]"), ('SizedSlice', 'Borrow::<[T]>::borrow(x)', '&', "&'V [T]"), ('SizedSlice', '&**x', '&', "&'V [T]"), ('SizedSlice', '&x[0]', '&', "&'V T"), ('SizedSlice', '&x[1..]', '&', "&'V [T]"),
    ('SizedSlice', 'x.each_ref()', '&', "SizedSlice<&'V T, N>"), ('SizedSlice', 'x.into_iter()', '&', "core::slice::Iter<'V, T>"), ('SizedSlice', 'x.iter()', '&', "core::slice::Iter<'V, T>"), ('SizedSlice', 'x.first().unwrap()', '&', "&'V T"),
    ('SizedSlice', 'x.as_mut_slice()', '&mut', "&'V mut [T]"), ('SizedSlice', 'AsMut::<[T]>::as_mut(x)', '&mut', "&'V mut [T]"), ('SizedSlice', 'BorrowMut::<[T]>::borrow_mut(x)', '&mut', "&'V mut [T]"), ('SizedSlice', '&mut **x', '&mut', "&'V mut [T]"), ('SizedSlice', '&mut x[0]', '&mut', "&'V mut T"),
    ('SizedSlice', 'x.each_mut()', '&mut', "SizedSlice<&'V mut T, N>"), ('SizedSlice', 'x.into_iter()', '&mut', "core::slice::IterMut<'V, T>"), ('SizedSlice', 'x.iter_mut()', '&mut', "core::slice::IterMut<'V, T>"),
    ('SizedStr', 'x.as_str()', '&', "&'V str"), ('SizedStr', 'x.as_bytes()', '&', "&'V [u8]"), ('SizedStr', 'AsRef::<str>::as_ref(x)', '&', "&'V str"), ('SizedStr', 'AsRef::<[u8]>::as_ref(x)', '&', "&'V [u8]"), ('SizedStr', 'AsRef::<OsStr>::as_ref(x)', '&', "&'V OsStr"), ('SizedStr', 'AsRef::<Path>::as_ref(x)', '&', "&'V Path"),
    ('SizedStr', 'Borrow::<str>::borrow(x)', '&', "&'V str"), ('SizedStr', '&**x', '&', "&'V str"), ('SizedStr', 'x.chars()', '&', "Chars<'V>"), ('SizedStr', 'x.char_indices()', '&', "CharIndices<'V>"), ('SizedStr', '&x[1..]', '&', "&'V str"),
    ('SizedStr', 'x.as_mut_str()', '&mut', "&'V mut str"), ('SizedStr', 'AsMut::<str>::as_mut(x)', '&mut', "&'V mut str"), ('SizedStr', 'BorrowMut::<str>::borrow_mut(x)', '&mut', "&'V mut str"), ('SizedStr', '&mut **x', '&mut', "&'V mut str"), ('SizedStr', '&mut x[..]', '&mut', "&'V mut str"),
    ('SizedIter', 'x.as_slice()', '&', "&'V [T]"), ('SizedIter', 'AsRef::<[T]>::as_ref(x)', '&', "&'V [T]"), ('SizedIter', 'x.as_mut_slice()', '&mut', "&'V mut [T]"), ('SizedIter', 'AsMut::<[T]>::as_mut(x)', '&mut', "&'V mut [T]"),
    ('Slot', 'x.as_slice()', '&', "&'V [u8]"), ('Slot', 'AsRef::<[u8]>::as_ref(x)', '&', "&'V [u8]"), ('Slot', 'Borrow::<[u8]>::borrow(x)', '&', "&'V [u8]"), ('Slot', '&**x', '&', "&'V [u8]"), ('Slot', '&x[0]', '&', "&'V u8"), ('Slot', '&x[1..]', '&', "&'V [u8]"),
    ('Slot', 'x.as_mut_slice()', '&mut', "&'V mut [u8]"), ('Slot', 'AsMut::<[u8]>::as_mut(x)', '&mut', "&'V mut [u8]"), ('Slot', 'BorrowMut::<[u8]>::borrow_mut(x)', '&mut', "&'V mut [u8]"), ('Slot', '&mut **x', '&mut', "&'V mut [u8]"), ('Slot', '&mut x[0]', '&mut', "&'V mut u8"),
    ('Output', 'x.as_slice()', '&', "&'V [u8]"), ('Output', 'AsRef::<[u8]>::as_ref(x)', '&', "&'V [u8]"), ('Output', 'Borrow::<[u8]>::borrow(x)', '&', "&'V [u8]"),
]
def views():
    out = []
    for c, e, k, v in VIEWS:
        g, ty, _ = G[c]; lt = [x for x in g.split(', ') if x.startswith("'")]; ot = [x for x in g.split(', ') if not x.startswith("'")]
        def gen(*lts): return '<' + ', '.join(list(lts) + lt + ot) + '>'
        r = "&'a mut " if k == '&mut' else "&'a "; m = 'mut ' if k == '&mut' else ''
        key = '%s: %s%s' % (c, e, ' (mutable)' if k == '&mut' and e == 'x.into_iter()' else '')
        va = v.replace("'V", "'a"); vb = v.replace("'V", "'b")
        ok = 'fn f%s(x: %s%s) -> %s { %s }' % (gen("'a"), r, ty, va, e)
        fn = 'fn v%s(x: %s%s) -> %s { %s }\n' % (gen("'a"), r, ty, va, e)
        bad = [(('lifetime', None, 'E0621', 'E0310', 'E0309'), "fn f%s(x: %s%s) -> %s { %s }" % (gen("'a", "'b"), r, ty, vb, e), 'the view would outlive what it views'),
               (('E0505',), fn + 'fn f%s(mut x: %s) { let v = v(&%sx); drop(x); sink(v); }' % (gen(), ty, m), 'what is viewed could be dropped under the view')]
        if k == '&mut':
            bad += [(('E0596', 'E0308', 'E0277', 'lifetime', None), "fn f%s(x: &'a %s) -> %s { %s }" % (gen("'a"), ty, va, e), 'a shared reference would allow to write'),
                    (('E0499',), fn + 'fn f%s(x: &mut %s) { let a = v(x); let b = v(x); sink(a); sink(b); }' % (gen(), ty), 'two writers of the same memory')]
        else:
            bad += [(('E0502', 'E0506'), fn + 'fn g%s(x: &mut %s) {}\nfn f%s(x: &mut %s) { let a = v(x); g(x); sink(a); }' % (gen(), ty, gen(), ty), 'what is viewed could be changed under the view')]
        out.append(Item(key, 'A view borrows what it views for as long as it lives.', ok, bad))
    return out
def streams():
    return [
        Item('Input: keeps the buffer borrowed', 'An input stream does not outlive its buffer.', "fn f<'a>(b: &'a [u8]) -> Input<'a> { Input::new(b) }", [
            ((None,), "fn f<'a>(b: &'a [u8]) -> Input<'static> { Input::new(b) }", 'the stream would outlive the buffer'),
            (('E0506',), 'fn f() { let mut b = [0u8; 4]; let i = Input::new(&b); b[0] = 1; sink(i); }', 'the buffer could be changed while it is read'),
            (('E0505',), 'fn f() { let b = Vec::<u8>::new(); let i = Input::new(&b); drop(b); sink(i); }', 'the buffer could be dropped while it is read')]),
        Item('Input: what is read outlives the stream, not the buffer', 'Bytes that were read stay usable after the stream is gone, as long as the buffer lives.', "fn f<'a>(i: &mut Input<'a>) -> &'a [u8] { i.read(1).unwrap() }", [
            ((None,), "fn f<'a, 'b>(i: &mut Input<'a>) -> &'b [u8] { i.read(1).unwrap() }", 'the bytes would outlive the buffer'),
            (('E0597',), "fn f() { let r; { let b = [0u8; 4]; let mut i = Input::new(&b); r = i.read(1).unwrap(); } sink(r); }", 'the bytes would outlive the buffer')]),
        Item('Input: reading needs exclusive access', 'The cursor moves under exclusive access only.', 'fn f(i: &mut Input) { let _ = i.read(1); let _ = i.read_into(&mut [0]); }', [
            (('E0596',), 'fn f(i: &Input) { let _ = i.read(1); }', 'the cursor would move under a shared reference'),
            (('E0596',), 'fn f(i: &Input) { let _ = i.read_into(&mut [0]); }', 'the cursor would move under a shared reference')]),
        Item('Output: keeps the buffer exclusively borrowed', 'Nothing else reads or writes the buffer of an output stream while the stream lives.', "fn f<'a>(b: &'a mut [u8]) -> Output<'a> { Output::new(b) }", [
            ((None,), "fn f<'a>(b: &'a mut [u8]) -> Output<'static> { Output::new(b) }", 'the stream would outlive the buffer'),
            (('E0499',), 'fn f(b: &mut [u8]) { let o = Output::new(b); let p = Output::new(b); sink(o); sink(p); }', 'two streams would write the same buffer'),
            (('E0503', 'E0502'), 'fn f() { let mut b = [0u8; 4]; let o = Output::new(&mut b); sink(&b); sink(o); }', 'the buffer could be read while it is written'),
            (('E0308',), 'fn f(b: &[u8]) { let o = Output::new(b); }', 'a shared buffer would be written'),
            (('E0597',), "fn f() { let o; { let mut b = [0u8; 4]; o = Output::new(&mut b); } sink(o); }", 'the stream would outlive the buffer')]),
        Item('Output: writing needs exclusive access', 'Nothing is written through a shared reference.', 'fn f(o: &mut Output) { let _ = o.write(&[1]); }', [
            (('E0596',), 'fn f(o: &Output) { let _ = o.write(&[1]); }', 'bytes would be written through a shared reference'),
            (('E0502',), 'fn f(o: &mut Output) { let s = o.as_slice(); let _ = o.write(&[1]); sink(s); }', 'what was written could change under a view')]),
        Item('Output: is not duplicated', 'There is one writer of a buffer.', 'fn f(o: Output) { sink(o); }', [(('E0277',), 'fn f() { clone::<Output>() }', 'two streams would write the same buffer'), (('E0277',), 'fn f() { copy::<Output>() }', 'two streams would write the same buffer'), (('E0382',), 'fn f(o: Output) { sink(o); sink(o); }', 'two streams would write the same buffer')]),
        Item('Decode: decoded values are independent of the buffer', 'A decoded value does not borrow from the bytes that it was decoded from.', '''
fn f<T: Decode>(b: Vec<u8>) -> Result<T, T::Error> { let r = T::decode(&mut Input::new(&b)); drop(b); r }
fn g() -> Cow<'static, str> { let b = Vec::new(); let r = Decode::decode(&mut Input::new(&b)); drop(b); r.unwrap() }
fn h<'a, T: Decode>(s: Slot<T>) -> T { let v = s.read(); drop(s); v.ok().unwrap() }''', []),
        Item('Encode: encoding only looks at the value', 'A value is encoded through a shared reference.', 'fn f<T: Encode + ?Sized>(x: &T, o: &mut Output) { let _ = x.encode(o); }', []),
        Item('Slot: writing needs exclusive access', 'A slot changes under exclusive access only.', 'fn f(s: &mut Slot<u8>) { let _ = s.write(1); s.set_len(1); s.copy_from_slice(&[1]); let _ = s.as_mut_ptr(); }\nfn g(s: &Slot<u8>) -> u8 { s.read().unwrap() }', [
            (('E0596',), 'fn f(s: &Slot<u8>) { let _ = s.write(1); }', 'a slot would change under a shared reference'), (('E0596',), 'fn f(s: &Slot<u8>) { s.set_len(1); }', 'a slot would change under a shared reference'), (('E0596',), 'fn f(s: &Slot<u8>) { s.copy_from_slice(&[1]); }', 'a slot would change under a shared reference'), (('E0596',), 'fn f(s: &Slot<u8>) { s.as_mut_ptr(); }', 'a slot would change under a shared reference')]),
        Item('SizedSlice: changing needs exclusive access', 'A container changes under exclusive access only.', 'fn f(s: &mut SizedSlice<u8, 4>) { s.copy_from_slice(&[1]); let _ = s.as_mut_ptr(); unsafe { s.set_len(1) } }', [
            (('E0596',), 'fn f(s: &SizedSlice<u8, 4>) { s.copy_from_slice(&[1]); }', 'a container would change under a shared reference'), (('E0596',), 'fn f(s: &SizedSlice<u8, 4>) { s.as_mut_ptr(); }', 'a container would change under a shared reference'), (('E0596',), 'fn f(s: &SizedSlice<u8, 4>) { unsafe { s.set_len(1) } }', 'a container would change under a shared reference')]),
        Item('SizedIter: advancing needs exclusive access', 'An iterator advances under exclusive access only.', 'fn f(i: &mut SizedIter<u8, 4>) { i.next(); i.next_back(); i.nth(1); }', [
            (('E0596', 'E0599', 'E0277'), 'fn f(i: &SizedIter<u8, 4>) { i.next(); }', 'an iterator would advance under a shared reference'), (('E0596', 'E0599', 'E0277'), 'fn f(i: &SizedIter<u8, 4>) { i.next_back(); }', 'an iterator would advance under a shared reference')]),
        Item('SizedSlice: consuming conversions consume', 'Elements move out of a container once.', 'fn f(s: SizedSlice<String, 4>) -> Vec<String> { s.into_vec() }\nfn g(s: SizedSlice<String, 4>) -> Box<[String]> { s.into_boxed_slice() }\nfn h(s: SizedSlice<String, 4>) -> SizedIter<String, 4> { s.into_iter() }\nfn i(s: SizedSlice<String, 4>) -> ([MaybeUninit<String>; 4], usize) { s.into_raw_parts() }', [
            (('E0382',), 'fn f(s: SizedSlice<String, 4>) { sink(s.into_vec()); sink(s); }', 'elements would have two owners'), (('E0382',), 'fn f(s: SizedSlice<String, 4>) { sink(s.into_boxed_slice()); sink(s); }', 'elements would have two owners'), (('E0382',), 'fn f(s: SizedSlice<String, 4>) { sink(s.into_raw_parts()); sink(s); }', 'elements would have two owners'),
            (('E0382',), 'fn f(s: SizedSlice<String, 4>) { sink(s.into_iter()); sink(s); }', 'elements would have two owners'), (('E0507',), 'fn f(s: &SizedSlice<String, 4>) -> Vec<String> { s.into_vec() }', 'elements would have two owners'), (('E0507', 'E0308'), 'fn f(s: &SizedSlice<String, 4>) -> SizedIter<String, 4> { s.into_iter() }', 'elements would have two owners')]),
    ]

# ---------------------------------------------------------------- C24  safe code cannot break an invariant
def invariants():
    out = []
    U = [('SizedSlice::from_raw_parts', 'fn f(b: [MaybeUninit<u8>; 4]) { let _ = %s; }', 'SizedSlice::from_raw_parts(b, 4)'), ('SizedSlice::set_len', 'fn f(mut s: SizedSlice<u8, 4>) { %s; }', 's.set_len(4)'),
         ('SizedStr::from_utf8_unchecked', 'fn f(b: &[u8]) { let _: SizedStr<4> = %s; }', 'SizedStr::from_utf8_unchecked(b)'), ('SizedStr::from_raw_parts', 'fn f(b: [u8; 4]) { let _: SizedStr<4> = %s; }', 'SizedStr::from_raw_parts(b, 4)'),
         ('Slot::from_raw_parts', 'fn f(p: *mut u8) { let _: Slot<u8> = %s; }', 'Slot::from_raw_parts(p, 4, 4)'), ('Slot::set_len_unchecked', 'fn f(mut s: Slot<u8>) { %s; }', 's.set_len_unchecked(4)')]
    for k, f, e in U: out.append(Item(k + ' is unsafe', 'An operation that trusts its caller must be unsafe to call.', f % ('unsafe { %s }' % e), [(('E0133',), f % e, 'safe code could break the invariants of the type')]))
    P = [('SizedSlice', 'fn f(s: SizedSlice<u8, 4>) { let _ = s.len(); }', ['fn f(mut s: SizedSlice<u8, 4>) { s.len = 9; }', 'fn f(mut s: SizedSlice<u8, 4>) { s.buf = [MaybeUninit::uninit(); 4]; }', 'fn f(b: [MaybeUninit<u8>; 4]) { let _ = SizedSlice { buf: b, len: 4 }; }']),
         ('SizedStr', 'fn f(s: SizedStr<4>) { let _ = s.len(); }', ['fn f(mut s: SizedStr<4>) { s.0 = SizedSlice::default(); }', 'fn f(s: SizedSlice<u8, 4>) { let _ = SizedStr(s); }']),
         ('SizedIter', 'fn f(s: SizedIter<u8, 4>) { let _ = s.len(); }', ['fn f(mut s: SizedIter<u8, 4>) { s.pos = 9; }', 'fn f(mut s: SizedIter<u8, 4>) { s.len = 9; }', 'fn f(mut s: SizedIter<u8, 4>) { s.buf = [MaybeUninit::uninit(); 4]; }', 'fn f(b: [MaybeUninit<u8>; 4]) { let _ = unsafe { SizedIter::new(b, 4) }; }']),
         ('Slot', 'fn f(s: Slot<u8>) { let _ = s.len(); }', ['fn f(mut s: Slot<u8>) { s.len = 9; }', 'fn f(mut s: Slot<u8>) { s.buf = Box::new([]); }']),
         ('Input', 'fn f(s: Input) { let _ = s.position(); }', ['fn f(mut s: Input) { s.pos = 9; }', 'fn f(mut s: Input) { s.buf = &[]; }', "fn f(b: &[u8]) { let _ = Input { buf: b, pos: 9 }; }"]),
         ('Output', 'fn f(s: Output) { let _ = s.position(); }', ['fn f(mut s: Output) { s.pos = 9; }', 'fn f(mut s: Output) { s.buf = &mut []; }', "fn f(b: &mut [u8]) { let _ = Output { buf: b, pos: 9 }; }"])]
    for k, ok, bads in P: out.append(Item(k + ': its parts are private', 'The parts that must agree with each other are out of reach.', ok, [(('E0616', 'E0451', 'E0423', 'E0624', 'E0603', 'E0560', 'E0609', 'E0599'), b, 'safe code could break the invariants of the type') for b in bads]))
    def bound(key, about, ok, *bad): out.append(Item(key, about, 'fn b() { %s }' % ok, [(('E0277', 'E0599', 'E0271', 'E0308', 'E0369'), 'fn %s' % b if b.startswith('g') else 'fn b() { %s }' % b, w) for b, w in bad]))
    H = 'fn h<A: ?Sized + %s>() {} '
    def im(tr, ty): return (H % tr) + 'h::<%s>()' % ty
    bound('SizedStr: its bytes are not written by safe code', 'A sized string stays valid UTF-8.', im('AsMut<str> + BorrowMut<str> + DerefMut + AsRef<[u8]>', 'SizedStr<4>'),
        *[(im(t, 'SizedStr<4>'), 'safe code could write bytes that are not UTF-8') for t in ('AsMut<[u8]>', 'BorrowMut<[u8]>', 'IndexMut<usize>', 'DerefMut<Target = [u8]>', 'DerefMut<Target = SizedSlice<u8, 4>>', 'AsMut<SizedSlice<u8, 4>>', 'BorrowMut<SizedSlice<u8, 4>>', 'From<SizedSlice<u8, 4>>', 'From<[u8; 4]>', 'FromIterator<u8>')])
    bound('SizedStr: conversions that may not fit are fallible', 'What may not fit is not converted silently.', im("TryFrom<&'static str> + TryFrom<String> + TryFrom<char> + core::str::FromStr", 'SizedStr<4>'),
        *[(im(t, 'SizedStr<4>'), 'text would be cut or overflow') for t in ("From<&'static str>", 'From<String>', 'From<char>', 'From<SizedStr<5>>')])
    bound('SizedSlice: conversions that may not fit are fallible', 'What may not fit is not converted silently.', im("TryFrom<&'static [u8]> + From<[u8; 4]>", 'SizedSlice<u8, 4>'),
        *[(im(t, 'SizedSlice<u8, 4>'), 'items would be cut or overflow') for t in ("From<&'static [u8]>", 'From<[u8; 5]>', 'From<[u8; 3]>', 'From<SizedSlice<u8, 5>>', 'From<Vec<u8>>')])
    bound('SizedSlice: ownership is not duplicated', 'Elements are cloned by their own Clone only.', 'clone::<SizedSlice<String, 4>>()', ('copy::<SizedSlice<String, 4>>()', 'elements would have two owners'), ('struct X; clone::<SizedSlice<X, 4>>()', 'elements that cannot be cloned would have two owners'))
    bound('SizedIter: ownership is not duplicated', 'Elements are cloned by their own Clone only.', 'clone::<SizedIter<String, 4>>()', ('copy::<SizedIter<String, 4>>()', 'elements would have two owners'), ('struct X; clone::<SizedIter<X, 4>>()', 'elements that cannot be cloned would have two owners'))
    for c in ('SizedSlice', 'SizedIter'):
        bound(c + ': crosses threads as its elements do', 'A container is shared between threads only if its elements are.', 'send::<%s<u8, 4>>(); sync::<%s<u8, 4>>(); send::<%s<Cell<u8>, 4>>(); sync::<%s<Box<u8>, 4>>()' % (c, c, c, c),
            ('send::<%s<Rc<u8>, 4>>()' % c, 'a value bound to its thread would leave it'), ('sync::<%s<Cell<u8>, 4>>()' % c, 'a cell would be shared between threads'), ('sync::<%s<Rc<u8>, 4>>()' % c, 'a value bound to its thread would be shared'), ('send::<%s<*const u8, 4>>()' % c, 'a value bound to its thread would leave it'))
    bound('streams, strings and slots cross threads', 'Streams, strings and slots hold bytes only and can be sent and shared.', "send::<Input>(); sync::<Input>(); send::<Output>(); sync::<Output>(); send::<SizedStr<4>>(); sync::<SizedStr<4>>(); send::<Slot<u8>>(); sync::<Slot<u8>>()")
    bound('Slot: owns bytes, whatever they encode', 'A slot holds bytes, not values: it crosses threads whatever it is bound to.', "send::<Slot<*const u8>>(); sync::<Slot<*const u8>>(); send::<Slot<&'static Cell<u8>>>(); sync::<Slot<&'static Cell<u8>>>(); fn un<T: Unpin + ?Sized>() {} un::<Slot<*const u8>>(); un::<SizedIter<u8, 4>>()")
    bound('SizedSlice: may be shortened in its lifetimes', 'Containers are covariant like arrays.', "fn v<'a>(x: SizedSlice<&'static str, 4>) -> SizedSlice<&'a str, 4> { x } fn w<'a>(x: SizedIter<&'static str, 4>) -> SizedIter<&'a str, 4> { x } fn y<'a, 'b>(x: &'b Input<'static>) -> &'b Input<'a> { x }")
    out.append(Item('SizedSlice: lifetimes are not lengthened', 'Containers keep the lifetimes of their elements.', None, [((None,), "fn v<'a>(x: SizedSlice<&'a str, 4>) -> SizedSlice<&'static str, 4> { x }", 'elements would outlive what they borrow'), ((None,), "fn v<'a>(x: SizedIter<&'a str, 4>) -> SizedIter<&'static str, 4> { x }", 'elements would outlive what they borrow'), ((None,), "fn v<'a, 'b>(x: &'b mut SizedSlice<&'static str, 4>) -> &'b mut SizedSlice<&'a str, 4> { x }", 'a short-lived element could be stored in a long-lived container'), ((None,), "fn v<'a, 'b>(x: &'b mut Output<'static>) -> &'b mut Output<'a> { x }", 'a short-lived buffer could be stored in a long-lived stream')]))
    out.append(Item('Slot: read back as what it was written for', 'A slot is bound to its type.', 'fn f(s: &mut Slot<u16>) -> u16 { s.write(1u16).unwrap(); s.write(&1u16).unwrap(); s.read().unwrap() }', [
        (('E0277',), 'fn f(s: &mut Slot<u16>) { s.write(1u8).unwrap(); }', 'a slot would hold the encoding of another type'), (('E0308',), 'fn f(s: &Slot<u16>) -> u8 { s.read().unwrap() }', 'a slot would be read as another type'), (('E0308',), 'fn f(s: Slot<u16>) -> Slot<u8> { s }', 'a slot would be read as another type')]))
    out.append(Item('PrimitiveDiscriminant is sealed', 'Only the primitive integers are discriminants.', 'fn d<T: PrimitiveDiscriminant>() {} fn b() { d::<u8>(); d::<i8>(); d::<u16>(); d::<i16>(); d::<u32>(); d::<i32>(); d::<u64>(); d::<i64>(); d::<u128>(); d::<i128>(); d::<usize>(); d::<isize>(); }', [
        (('E0277', 'E0603'), '#[derive(Clone, Copy)] struct D; impl PrimitiveDiscriminant for D {}', 'a discriminant may not fit into a generic error'), (('E0277',), 'fn d<T: PrimitiveDiscriminant>() {} fn b() { d::<char>() }', 'a discriminant that is not an integer')]))
    bound('SizedEncode: only types of bounded size', 'Types whose encodings have no substantial bound declare none.', im('SizedEncode', 'SizedSlice<u8, 4>') + '; h::<SizedStr<4>>(); h::<[u8; 4]>(); h::<Option<u8>>(); h::<Box<u8>>()',
        *[(im('SizedEncode', t), 'a bound would be declared that encodings exceed') for t in ('Vec<u8>', 'String', 'LinkedList<u8>', 'CString', 'std::collections::HashMap<u8, u8>', 'std::collections::HashSet<u8>', '[u8]', 'str', 'Box<[u8]>', 'Box<str>', 'Option<String>', '[String; 4]', '(u8, String)', 'SizedSlice<String, 4>', "&'static [u8]", 'Result<u8, String>', "Cow<'static, str>", 'RefCell<Vec<u8>>')])
    bound('DecodeBorrowed: arrays are no slices', 'Arrays do not encode their length, so they do not decode slices.', im('DecodeBorrowed<[u8]>', 'Vec<u8>') + '; h::<SizedSlice<u8, 4>>()',
        (im('DecodeBorrowed<[u8]>', '[u8; 4]'), 'an array would decode the length of a slice as items'), (im('DecodeBorrowed<[u8; 4]>', 'Vec<u8>'), 'a vector would decode items of an array as length'), (im('DecodeBorrowed<str>', 'Vec<u8>'), 'another scheme'), (im('DecodeBorrowed<str>', 'CString'), 'another scheme'), (im('DecodeBorrowed<[u8]>', 'String'), 'another scheme'), (im('DecodeBorrowed<CStr>', 'String'), 'another scheme'))
    bound('Decode: only what owns itself is decoded', 'References and unsized types are encoded, not decoded.', im('Encode', '[u8]') + "; h::<str>(); h::<&'static u8>(); h::<&'static str>(); h::<Box<[u8]>>()",
        *[(im('Decode', t), 'a decoded value would borrow from nowhere') for t in ("&'static u8", "&'static str", "&'static [u8]", "&'static mut u8")])
    bound('Codecs compose', 'A container has a codec exactly if its element has.', im('Encode', 'Vec<Option<SizedSlice<(u8, Box<u16>), 4>>>'), *[('struct X; ' + im(tr, t), 'a container of what cannot be encoded') for tr in ('Encode', 'Decode') for t in ('Vec<X>', 'Option<X>', '[X; 2]', 'SizedSlice<X, 2>', 'Box<X>', '(u8, X)', 'Result<X, u8>', 'Result<u8, X>', 'std::collections::HashMap<u8, X>')])
    return out

# ---------------------------------------------------------------- C12  features
CORE_TYPES = ['bool', 'char', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize', 'f32', 'f64', '()', '(u8,)', '(u8, u16)', '(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)', '[u8; 4]', 'Option<u8>', 'Result<u8, u16>', 'Cell<u8>', 'RefCell<u8>', 'PhantomData<X>', 'core::marker::PhantomPinned',
    'core::convert::Infallible', 'core::time::Duration', 'core::net::IpAddr', 'core::net::Ipv4Addr', 'core::net::Ipv6Addr', 'core::net::SocketAddr', 'core::net::SocketAddrV4', 'core::net::SocketAddrV6', 'core::ops::Bound<u8>', 'core::ops::Range<u8>', 'core::ops::RangeFrom<u8>', 'core::ops::RangeFull', 'core::ops::RangeInclusive<u8>', 'core::ops::RangeTo<u8>', 'core::ops::RangeToInclusive<u8>',
    'core::num::Saturating<u8>', 'core::num::Wrapping<u8>', 'core::num::NonZero<u8>', 'core::num::NonZero<i128>', 'core::num::NonZero<usize>', 'core::sync::atomic::AtomicBool', 'core::sync::atomic::AtomicU8', 'core::sync::atomic::AtomicI16', 'core::sync::atomic::AtomicU32', 'core::sync::atomic::AtomicI64', 'core::sync::atomic::AtomicUsize', 'core::sync::atomic::AtomicIsize', 'SizedSlice<u8, 4>', 'SizedStr<4>']
CORE_ENC = ['[u8]', 'str', 'CStr', "&'static u8", "&'static mut u8", "&'static str", 'core::cell::LazyCell<u8>']
ALLOC_TYPES = ['Box<u8>', 'Rc<u8>', 'Arc<u8>', "Cow<'static, str>", "Cow<'static, u8>", 'LinkedList<u8>', 'Vec<u8>', 'String', 'CString']
ALLOC_SIZED = ['Box<u8>', 'Rc<u8>', 'Arc<u8>', "Cow<'static, u8>"]
ALLOC_ENC = ['Box<[u8]>', 'Box<str>', 'Rc<str>', 'Arc<[u8]>']
STD_TYPES = ['std::collections::HashMap<u8, u8>', 'std::collections::HashSet<u8>', 'std::sync::Mutex<u8>', 'std::sync::RwLock<u8>', 'std::time::SystemTime']
STD_SIZED = ['std::sync::Mutex<u8>', 'std::sync::RwLock<u8>', 'std::time::SystemTime', 'std::sync::LazyLock<u8>']
STD_ENC = ['std::sync::LazyLock<u8>', 'std::sync::Mutex<[u8]>', 'std::sync::RwLock<str>']
ERRORS = ['CharDecodeError', 'CollectionDecodeError<u8, u16>', 'CollectionEncodeError<u8, u16>', 'EnumDecodeError<u8, u16>', 'EnumEncodeError<u8, u16>', 'GenericDecodeError', 'GenericEncodeError', 'InputError', 'IsizeEncodeError', 'ItemDecodeError<u8, u16>', 'ItemEncodeError<u8, u16>', 'LengthError', 'NonZeroDecodeError', 'OutputError', 'RefCellEncodeError<u8>', 'StringError', 'UsizeEncodeError', 'Utf16Error', 'Utf8Error']
def pre(fs):
    s = '#![no_std]\n#![allow(unused, dead_code)]\n'
    if 'alloc' in fs: s += 'extern crate alloc; use alloc::{borrow::Cow, boxed::Box, collections::LinkedList, ffi::CString, rc::Rc, string::String, sync::Arc, vec::Vec};\n'
    if 'std' in fs: s += 'extern crate std;\n'
    return s + '''use core::{borrow::{Borrow, BorrowMut}, cell::{Cell, RefCell}, ffi::CStr, fmt::{Debug, Display}, marker::PhantomData, mem::MaybeUninit};
use oct::{PrimitiveDiscriminant, SizedIter, SizedSlice, SizedStr, decode::{Decode, DecodeBorrowed, Input}, encode::{Encode, Output, SizedEncode}, error::*};
struct X; fn e<T: Encode + ?Sized>() {} fn d<T: Decode>() {} fn s<T: SizedEncode>() {} fn db<T: DecodeBorrowed<B>, B: ?Sized>() {}
'''
def feature_items(fs):
    out = []; tag = '[%s] ' % ','.join(fs)
    def each(f, ts): return ' '.join('%s::<%s>();' % (f, t) for t in ts)
    def item(k, about, src): out.append(Item(tag + k, about, src))
    def codec(f, what, ts):
        for t in ts: item('%s %s' % (t, what), 'A codec is there whenever its features are enabled.', 'fn b() { %s::<%s>(); }' % (f, t))
    codec('e', 'is encoded', CORE_TYPES + CORE_ENC); codec('d', 'is decoded', CORE_TYPES); codec('s', 'has a largest size', [t for t in CORE_TYPES if 'Pinned' not in t] + ["&'static u8", "&'static mut u8", 'core::cell::LazyCell<u8>'])
    if 'alloc' in fs:
        codec('e', 'is encoded', ALLOC_TYPES + ALLOC_ENC); codec('d', 'is decoded', ALLOC_TYPES); codec('s', 'has a largest size', ALLOC_SIZED)
        for t, b in (('Vec<u8>', '[u8]'), ('String', 'str'), ('CString', 'CStr'), ('Box<u8>', 'u8'), ('Rc<u8>', 'u8'), ('Arc<u8>', 'u8')): item('%s decodes %s' % (t, b), 'A codec is there whenever its features are enabled.', 'fn b() { db::<%s, %s>(); }' % (t, b))
        item('Slot', 'Slots need an allocator only.', 'fn b(mut x: oct::Slot<u32>, v: Vec<u8>) { let _ = oct::Slot::<u32>::new(); let _ = oct::Slot::<u32>::with_capacity(4); let _ = x.write(1); let _ = x.read(); let _: &[u8] = &x; x.copy_from_slice(&v); x.set_len(0); }')
        item('conversions to owned containers', 'Conversions are there whenever their features are enabled.', "fn b(x: SizedSlice<u8, 4>, y: SizedStr<4>) { let _ = x.clone().into_vec(); let _ = x.clone().into_boxed_slice(); let _ = Vec::from(x.clone()); let _ = Box::<[u8]>::from(x.clone()); let _ = x == Vec::from([1u8]); let _ = x.partial_cmp(&Vec::from([1u8])); let _ = y.clone().into_string(); let _ = y.clone().into_boxed_str(); let _ = String::from(y.clone()); let _ = Box::<str>::from(y.clone()); let _ = SizedStr::<4>::try_from(String::new()); let _ = y == String::new(); let _ = y.partial_cmp(&String::new()); }")
        item('CStringDecodeError', 'Error types are there whenever their features are enabled.', 'fn b<T: core::error::Error>() { b::<CStringDecodeError>(); let _: fn(CStringDecodeError) -> GenericDecodeError = Into::into; }')
    if 'std' in fs:
        codec('e', 'is encoded', STD_TYPES + STD_ENC); codec('d', 'is decoded', STD_TYPES); codec('s', 'has a largest size', STD_SIZED)
        item('SystemTimeDecodeError', 'Error types are there whenever their features are enabled.', 'fn b<T: core::error::Error>() { b::<SystemTimeDecodeError>(); let _: fn(SystemTimeDecodeError) -> GenericDecodeError = Into::into; }')
        item('SizedStr as path, as operating-system string, as address', 'Conversions are there whenever their features are enabled.', 'fn b(y: SizedStr<4>) { let _: &std::path::Path = y.as_ref(); let _: &std::ffi::OsStr = y.as_ref(); let _ = std::net::ToSocketAddrs::to_socket_addrs(&y); }')
        item('hash containers with any hasher', 'Hash containers of every hasher have codecs.', 'fn b<H: core::hash::BuildHasher + Default>() { d::<std::collections::HashMap<u8, u8, H>>(); d::<std::collections::HashSet<u8, H>>(); e::<std::collections::HashMap<u8, u8, H>>(); e::<std::collections::HashSet<u8, H>>(); }')
    if 'proc-macro' in fs:
        item('derive', 'The derive macros need no other feature.', "#[derive(Encode, Decode, SizedEncode)] struct S { a: u8, b: (u16,) }\n#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] enum E { A, B(u8), C { x: u16 } }\nfn b() { e::<S>(); d::<S>(); s::<S>(); e::<E>(); d::<E>(); s::<E>(); }")
    for t in ERRORS:
        n = t.split('<')[0]
        item(n, 'Error types are there whatever features are enabled.', 'fn b<T: Debug>() { b::<%s>(); }' % t)
    for t in ('CharDecodeError', 'GenericDecodeError', 'GenericEncodeError', 'InputError', 'IsizeEncodeError', 'LengthError', 'OutputError', 'StringError', 'UsizeEncodeError', 'Utf16Error', 'Utf8Error'):
        item(t + ' is an error', 'Errors are errors without the standard library.', 'fn b<T: core::error::Error>() { b::<%s>(); }' % t)
    item('streams', 'Streams need no allocator.', "fn b<'a>(x: &'a [u8], y: &'a mut [u8]) { let mut i = Input::new(x); let mut o = Output::new(y); let _ = i.read(1); let _ = i.read_into(&mut [0]); let _ = (i.capacity(), i.remaining(), i.position()); let _ = o.write(&[1]); let _ = (o.capacity(), o.remaining(), o.position(), o.as_slice()); let _ = u8::decode(&mut i); let _ = 1u8.encode(&mut o); }")
    item('containers', 'Sized containers need no allocator.', "fn b(mut x: SizedSlice<u8, 4>, mut y: SizedStr<4>) { let _ = SizedSlice::<u8, 4>::new(&[1]); let _ = SizedSlice::from([1u8, 2]); x.copy_from_slice(&[1]); let _ = (x.len(), x.capacity(), x.is_empty(), x.is_full(), x.as_slice(), x.each_ref().len()); let _ = x.clone() == [1u8]; for z in &mut x { *z = 1 } for z in &x { } for z in x { } let _ = SizedStr::<4>::new(\"\"); let _ = SizedStr::<4>::from_utf8(&[]); let _ = \"\".parse::<SizedStr<4>>(); let _ = (y.len(), y.capacity(), y.as_str(), y.as_bytes(), y.chars(), y.char_indices()); y.make_ascii_uppercase(); let _ = y == \"\"; let _: SizedStr<4> = \"ab\".chars().collect(); let _: SizedSlice<u8, 4> = [1u8].into_iter().collect(); }")
    for n, f in (('Input', "fn f<'a>(i: &mut Input<'a>) -> Result<&'a [u8], InputError> { let _ = (i.capacity(), i.remaining(), i.position()); i.read(1) }"), ('Input::read_into', 'fn f(i: &mut Input, b: &mut [u8]) -> Result<(), InputError> { i.read_into(b) }'), ('Output', "fn f<'a>(b: &'a mut [u8]) -> Output<'a> { Output::new(b) } const fn g(o: &mut Output) -> Result<(), OutputError> { let _ = (o.capacity(), o.remaining(), o.position()); o.write(&[1]) } const fn h<'a>(o: &'a Output) -> (&'a [u8], *const u8) { (o.as_slice(), o.as_ptr()) }"),
        ('SizedSlice', 'fn f(x: &SizedSlice<u8, 4>) -> &[u8] { let _ = (x.len(), x.capacity(), x.is_empty(), x.is_full(), x.as_ptr()); x.as_slice() } const fn g(x: &mut SizedSlice<u8, 4>) -> &mut [u8] { x.copy_from_slice(&[1]); let _ = x.as_mut_ptr(); x.as_mut_slice() } const unsafe fn h(b: [MaybeUninit<u8>; 4]) -> SizedSlice<u8, 4> { SizedSlice::from_raw_parts(b, 0) } const fn i(x: &mut SizedSlice<u8, 4>) -> SizedSlice<&mut u8, 4> { x.each_mut() } const fn j(x: &SizedSlice<u8, 4>) -> SizedSlice<&u8, 4> { x.each_ref() } const fn k(x: SizedSlice<u8, 4>) -> ([MaybeUninit<u8>; 4], usize) { x.into_raw_parts() } const unsafe fn l(x: &mut SizedSlice<u8, 4>) { x.set_len(0) }'),
        ('SizedStr', 'fn f(x: &str) -> Result<SizedStr<4>, StringError> { SizedStr::new(x) } const fn g(x: &[u8]) -> Result<SizedStr<4>, StringError> { SizedStr::from_utf8(x) } const fn h(x: &SizedStr<4>) -> &str { let _ = (x.len(), x.capacity(), x.is_empty(), x.is_full(), x.as_ptr(), x.as_bytes()); x.as_str() } const unsafe fn i(x: &[u8]) -> SizedStr<4> { SizedStr::from_utf8_unchecked(x) } const unsafe fn j(x: [u8; 4]) -> SizedStr<4> { SizedStr::from_raw_parts(x, 0) } const fn k(x: SizedStr<4>) -> SizedSlice<u8, 4> { x.into_bytes() } const fn l(x: SizedStr<4>) -> ([u8; 4], usize) { x.into_raw_parts() } const fn m(x: &mut SizedStr<4>) -> *mut u8 { x.as_mut_ptr() }'),
        ('SizedIter', 'fn f(x: &SizedIter<u8, 4>) -> &[u8] { x.as_slice() } const fn g(x: &mut SizedIter<u8, 4>) -> &mut [u8] { x.as_mut_slice() }')):
        item('constant functions of ' + n, 'What is declared to work in constants does.', 'const ' + f)
    return out

def features(rep, tier):
    import itertools, tempfile, shutil
    from concurrent.futures import ThreadPoolExecutor
    tmp = tempfile.mkdtemp(prefix='octfeat-')
    sets = [list(c) for n in range(4) for c in itertools.combinations(('alloc', 'proc-macro', 'std'), n)]
    try:
        with ThreadPoolExecutor(8) as ex: octs = list(ex.map(lambda fs: typing_.Oct(tmp, fs), sets))
        for fs, o in zip(sets, octs):
            rep.oblig += 1
            if o.err: rep.violation('features/[%s]' % ','.join(fs), 'oct does not type-check with the features [%s]:\n%s' % (','.join(fs), o.err)); continue
            rep.disch += 1
            ext, raw = o.externs()
            for c, need in (('std', 'std'), ('alloc', 'alloc')):
                if need in fs or (c == 'alloc' and 'std' in fs): continue
                rep.oblig += 1
                if c in ext: rep.violation('features/[%s] links %s' % (','.join(fs), c), 'oct depends on the crate %s although the feature %s is not enabled (enabled: [%s]), so it cannot be used where that crate does not exist. Crates: %s' % (c, need, ','.join(fs), ' '.join(sorted(ext))))
                elif 'core' not in ext: rep.undecided.append('crates of [%s]: %s' % (','.join(fs), raw[:200]))
                else: rep.disch += 1
            bulk(rep, o, fs)
        rep.cov['feature_sets'] = [','.join(f) for f in sets]
    finally: shutil.rmtree(tmp, ignore_errors=True)
def bulk(rep, o, fs, atomics=None):
    """accepting items share one program; only when it is refused are they tried one by one"""
    items = feature_items(fs); head = pre(fs)
    if atomics is not None:
        items = [it for it in items if lacks(it.ok) <= atomics]
        for it in items: it.key = '[%s] ' % o.target + it.key
        if 'ptr' not in atomics: head = head.replace('sync::Arc, ', '')
    src = head + '\n'.join('mod m%d { use super::*; %s }' % (i, it.ok) for i, it in enumerate(items))
    if not o.compile('bulk', src):
        rep.oblig += len(items); rep.disch += len(items); rep.cov['programs_accepted'] = rep.cov.get('programs_accepted', 0) + len(items); return
    typing_.decide(rep, items, head, oct=o)
def lacks(src):
    """widths of the atomics that a program needs"""
    w = {'Bool': '8', 'Usize': 'ptr', 'Isize': 'ptr', 'Ptr': 'ptr'}
    out = {w.get(x, x.lstrip('UI')) for x in re.findall(r'\bAtomic([A-Z]\w+)', src)}
    return out | ({'ptr'} if re.search(r'\bArc\b', src) else set())

# ---------------------------------------------------------------- C30  platforms
SMALL = (('thumbv6m-none-eabi', 'pointers of 32 bits, no atomic exchange'), ('msp430-none-elf', 'pointers of 16 bits, no atomics'), ('powerpc-unknown-linux-gnu', 'pointers of 32 bits, big-endian, no atomics of 64 bits'))
LARGE = (('s390x-unknown-linux-gnu', 'pointers of 64 bits, big-endian'), ('i686-unknown-linux-gnu', 'pointers of 32 bits, atomics of 64 bits'))
def platforms(rep, tier):
    import tempfile, shutil, subprocess, facts
    from concurrent.futures import ThreadPoolExecutor
    rep.level = 'other'
    rep.cov['explanation'] = 'oct is type-checked for platforms that differ in the width of pointers, in the order of bytes and in their atomics, against a standard library of that platform, and type-level witnesses of what each platform must offer are type-checked against the result. Nothing is run.'
    tmp = tempfile.mkdtemp(prefix='octplat-')
    jobs = [(t, fs) for t, _ in SMALL for fs in ([], ['alloc', 'proc-macro'])] + [(t, fs) for t, _ in LARGE for fs in ([], ['alloc', 'proc-macro', 'std'])]
    try:
        with ThreadPoolExecutor(5) as ex: list(ex.map(facts.target_sysroot, [t for t, _ in SMALL + LARGE]))
        with ThreadPoolExecutor(8) as ex: octs = list(ex.map(lambda j: typing_.Oct(tmp, j[1], j[0]), jobs))
        for (t, fs), o in zip(jobs, octs):
            rep.oblig += 1
            if o.err: rep.violation('platform/%s [%s]' % (t, ','.join(fs)), 'oct does not type-check for %s (%s) with the features [%s]:\n%s' % (t, dict(SMALL + LARGE)[t], ','.join(fs), o.err)); continue
            rep.disch += 1
            cfg = subprocess.run(['rustc', '+nightly', '--print', 'cfg', '--target', t], capture_output=True, text=True).stdout
            bulk(rep, o, fs, set(re.findall(r'^target_has_atomic="(\w+)"', cfg, re.M)))
        rep.cov['platforms'] = ['%s: %s' % x for x in SMALL + LARGE]
    finally: shutil.rmtree(tmp, ignore_errors=True)

# ---------------------------------------------------------------- C25  derive works in every program
DPRE = '''#![allow(dead_code, unused)]
#![no_std]
extern crate alloc;
'''
D3 = '#[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)]'; D2 = '#[derive(::oct::encode::Encode, ::oct::decode::Decode)]'; D1 = '#[derive(::oct::encode::Encode)]'
WH = 'where ::oct::error::GenericEncodeError: From<<T as ::oct::encode::Encode>::Error>, ::oct::error::GenericDecodeError: From<<T as ::oct::decode::Decode>::Error>'
BD = '::oct::encode::Encode + ::oct::decode::Decode + ::oct::encode::SizedEncode'
USE3 = 'fn u3<A: ::oct::encode::Encode + ::oct::decode::Decode + ::oct::encode::SizedEncode>() {} fn u2<A: ::oct::encode::Encode + ::oct::decode::Decode>() {} fn u1<A: ::oct::encode::Encode + ?Sized>() {} '
def derives():
    out = []
    def ok(key, src, *uses, bad=()): out.append(Item(key, 'Every structure and enumeration whose fields have codecs can derive them.', USE3 + src + ' fn uses() { %s }' % ' '.join(uses), bad))
    for n, b in (('unit', ';'), ('empty tuple', '();'), ('empty braces', '{}'), ('tuple', '(u8, pub [u16; 3], Option<char>);'), ('named', '{ a: u8, pub b: (u8, u16), c: Result<u8, u16> }'), ('one field', '(u8);'), ('nested', '{ a: ((u8,), (u16, (u8, u8))), f: [[u8; 2]; 2], b: core::time::Duration, c: core::net::SocketAddr }')):
        ok('structure: ' + n, D3 + ' struct S' + b, 'u3::<S>();')
    ok('structure: thirty fields', D3 + ' struct S { %s }' % ', '.join('f%d: u%d' % (i, (8, 16, 32, 64)[i % 4]) for i in range(30)), 'u3::<S>();')
    ok('structure: unbounded fields', D2 + ' struct S { a: alloc::vec::Vec<alloc::string::String>, b: alloc::ffi::CString, c: alloc::boxed::Box<u8> }', 'u2::<S>();', bad=[(('E0277',), D3 + ' struct S { a: alloc::vec::Vec<u8> }', 'a largest size would be declared for an unbounded field')])
    ok('structure: recursive', D2 + ' struct S { v: u8, next: Option<alloc::boxed::Box<S>>, all: alloc::vec::Vec<S> }', 'u2::<S>();')
    ok('structure: unsized', D1 + ' struct S { a: u8, b: [u16] } ' + D1 + ' struct U<T: ?Sized + ::oct::encode::Encode>(u8, T) where ::oct::error::GenericEncodeError: From<T::Error>;', 'u1::<S>(); u1::<U<str>>();')
    ok('structure: borrowing', D1 + " struct S<'a> { a: &'a str, b: &'a mut u8, c: &'static [u8] }", "fn w<'a>() { u1::<S<'a>>(); }")
    ok('structure: raw identifiers', D3 + ' struct r#Struct { r#type: u8, r#fn: u16 }', 'u3::<r#Struct>();')
    ok('structure: names that the expansion uses', D3 + ' struct S { stream: u8, this: u8, value: u8, value0: u8, value1: u8, input: u8, output: u8, discriminant: u8, e: u8 }', 'u3::<S>();')
    ok('structure: attributes', D3 + ' #[repr(C)] #[non_exhaustive] #[must_use] pub struct S { /** doc */ #[allow(unused)] pub a: u8, #[cfg(any())] b: *const u8, #[doc(hidden)] pub c: u8 } ' + D3 + ' #[repr(transparent)] struct T(u8); ' + D3 + ' #[repr(C, align(8))] struct U(u8);', 'u3::<S>(); u3::<T>(); u3::<U>();')
    ok('structure: inside a function', 'fn f() { %s struct S { a: u8 } u3::<S>(); }' % D3)
    ok('structure: from a macro', 'macro_rules! mk { ($n:ident, $($f:ident: $t:ty),*) => { %s struct $n { $($f: $t),* } } } mk!(S, a: u8, b: [u8; 2], c: (u8, u16));' % D3, 'u3::<S>();')
    ok('structure: lifetime and constant parameters', D3 + " struct S<'a, const N: usize, const B: bool>([u8; N], core::marker::PhantomData<&'a u8>);", "u3::<S<'static, 3, true>>();")
    ok('structure: type parameters', D3 + ' struct S<T: %s>(T, Option<T>) %s;' % (BD, WH) + D3 + ' struct P<T>(core::marker::PhantomData<T>);', 'u3::<S<u8>>(); u3::<S<(u16,)>>(); u3::<P<str2>>(); struct str2;', bad=[(('E0277',), 'struct X; %s struct S<T: %s>(T) %s; fn u3<A: ::oct::encode::Encode>() {} fn b() { u3::<S<X>>(); }' % (D3, BD, WH), 'a parameter without codec would be accepted')])
    ok('structure: parameters with defaults', D3 + ' struct S<T: %s = u8, const N: usize = 3>(T, [u8; N]) %s;' % (BD, WH), 'u3::<S>(); u3::<S<u16, 2>>();')
    ok('structure: trailing commas and bounds everywhere', D3 + " struct S<'a, 'b: 'a, T: 'a + 'b + %s, const N: usize,>(T, core::marker::PhantomData<(&'a u8, &'b u8)>, [u8; N],) %s, T: Copy,;" % (BD, WH), "u3::<S<'static, 'static, u8, 1>>();")
    for r, lo, hi in (('u8', 0, 255), ('i8', -128, 127), ('u16', 0, 65535), ('i16', -32768, 32767), ('u32', 0, 2**32 - 1), ('i32', -2**31, 2**31 - 1), ('u64', 0, 2**64 - 1), ('i64', -2**63, 2**63 - 1), ('usize', 0, 2**64 - 1), ('isize', -2**63, 2**63 - 1), ('u128', 0, 2**128 - 1), ('i128', -2**127, 2**127 - 1)):
        ok('enumeration: ' + r, D3 + ' #[repr(%s)] enum E { A = %d, B = %d, C = 1, D, F(u8), G { x: u16 }, H = 10 }' % (r, lo, hi), 'u3::<E>();')
    ok('enumeration: default representation', D3 + ' enum E { A, B(u8), C { x: u16, y: [u8; 2] }, D(), F {} }', 'u3::<E>();')
    ok('enumeration: without variants', D3 + ' enum E {}', 'u3::<E>();')
    ok('enumeration: one variant', D3 + ' enum E { A }' + D3 + ' #[repr(u8)] enum F { A(u8) }', 'u3::<E>(); u3::<F>();')
    ok('enumeration: written constants', D3 + ' #[repr(i16)] enum E { A = 0x10, B = 0b11, C = 1_000, D = 0o17, F = 5i16, G = -0x20, H, I = -2, J, K, L, M = (-0x30), N, O = -(0x40), Q }', 'u3::<E>();')
    ok('enumeration: constants from a macro', 'macro_rules! mk { ($n:ident, $($v:ident = $t:literal),*) => { %s #[repr(i16)] enum $n { $($v = $t),* } } } mk!(E, A = 3, B = 5, C = -1);' % D3, 'u3::<E>();')
    ok('enumeration: names of the prelude and of the expansion', D3 + ' enum E { Error, Ok, Err(u8), Some, None, Result { stream: u8, this: u8, value: u8, value0: u8, discriminant: u8 }, Option, Into, Encode, Decode, Input, Output }', 'u3::<E>();')
    ok('enumeration: raw identifiers', D3 + ' enum r#Enum { r#type, r#fn { r#match: u8 } }', 'u3::<r#Enum>();')
    ok('enumeration: attributes', D3 + ' #[repr(u8)] #[non_exhaustive] pub enum E { /** doc */ A, #[doc(hidden)] B(#[allow(unused)] u8), #[cfg(any())] C(*const u8), #[cfg(not(any()))] D }', 'u3::<E>();')
    ok('enumeration: recursive', D2 + ' enum E { Leaf, Node(alloc::boxed::Box<E>, alloc::boxed::Box<E>), All(alloc::vec::Vec<E>) }', 'u2::<E>();')
    ok('enumeration: parameters', D3 + " enum E<'a, T: %s = u8, const N: usize = 2> %s { A(T), B { x: [u8; N] }, C(core::marker::PhantomData<&'a T>) }" % (BD, WH), "u3::<E<'static>>(); u3::<E<'static, u16, 3>>();")
    ok('enumeration: hundred variants', D3 + ' #[repr(u8)] enum E { %s }' % ', '.join('V%d' % i for i in range(100)), 'u3::<E>();')
    ok('enumeration: as field', D3 + ' #[repr(u8)] enum E { A, B(u8) } ' + D3 + ' struct S { e: E, f: Option<E>, g: [E; 2], h: (E,) } ' + D3 + ' enum F { X(E), Y { e: E, s: S } }', 'u3::<S>(); u3::<F>();')
    ok('names of the prelude taken by others', 'mod m { %s pub struct S { a: u8 } %s #[repr(u8)] pub enum E { A, B(u8) } struct Result; struct Option; struct Ok; struct Err; struct Some; struct None; struct Into; struct From; struct Infallible; mod core {} mod std {} mod alloc {} mod oct {} trait Encode {} trait Decode {} }' % (D3, D3), 'u3::<m::S>(); u3::<m::E>();')
    ok('program without prelude', 'mod m { #![no_implicit_prelude] %s pub struct S { a: u8 } %s pub enum E { A, B(u8), C { x: u8 } } }' % (D3, D3), 'u3::<m::S>(); u3::<m::E>();')
    ok('foreign methods of the same names', 'trait M { fn map_err(self) where Self: Sized {} fn encode(&self) {} fn decode() {} fn into(self) where Self: Sized {} } impl<T: ?Sized> M for T {} ' + D3 + ' struct S { a: u8 } ' + D3 + ' enum E { A, B(u8) }', 'u3::<S>(); u3::<E>();')
    ok('every codec as field', D2 + ''' struct S { a: Option<char>, b: bool, c: alloc::string::String, d: alloc::ffi::CString, e: alloc::vec::Vec<char>, f: [char; 2], g: core::num::NonZero<u8>, h: core::cell::RefCell<u8>, i: core::cell::Cell<u8>, j: core::ops::Bound<u8>, k: core::ops::Range<u8>, l: oct::SizedStr<4>, m: oct::SizedSlice<char, 4>, n: usize, o: isize, p: alloc::borrow::Cow<'static, str>, q: alloc::collections::LinkedList<u16>, r: alloc::rc::Rc<u8>, s: alloc::sync::Arc<u8>, t: core::sync::atomic::AtomicU8, u: core::convert::Infallible, v: core::time::Duration, w: core::marker::PhantomData<*const u8>, x: Result<u8, u16>, y: core::num::Wrapping<u8>, z: core::num::Saturating<i8>, aa: f32, ab: i128, ac: (), ad: (u8, u8) } ''', 'u2::<S>();')
    ok('every codec of the standard library as field', 'extern crate std; ' + D2 + ' struct S { a: std::collections::HashMap<u8, u16>, b: std::collections::HashSet<u8>, c: std::sync::Mutex<u8>, d: std::sync::RwLock<u8>, e: std::time::SystemTime }', 'u2::<S>();')
    NOC = (('E0277',), 'the derived codec would skip or invent a field')
    def bad(key, about, *bs): out.append(Item(key, about, None, [(c, s, w) for c, s, w in bs]))
    bad('fields without codec', 'A field without codec is refused.', *[(('E0277',), 'struct X; #[derive(%s)] %s' % (d, t), 'a derived codec would leave a field out') for d in ('::oct::encode::Encode', '::oct::decode::Decode') for t in ('struct S(u8, X);', 'struct S { x: X }', 'enum E { A(X) }', 'enum E { A, B { x: X } }', "struct S<T>(T);")])
    bad('unions', 'Untagged unions have no codec.', *[((None, 'E0277'), '#[derive(%s)] union U { a: u8, b: i8 }' % d, 'the codec of a union would be a guess') for d in ('::oct::encode::Encode', '::oct::decode::Decode', '::oct::encode::SizedEncode')])
    bad('discriminants that do not fit', 'A discriminant that its representation cannot hold is refused.', *[((None, 'overflowing_literals', 'E0080', 'E0370', 'E0600'), D3 + ' #[repr(%s)] enum E { %s }' % (r, v), 'a discriminant would be cut') for r, v in (('u8', 'A = 256'), ('i8', 'A = 128'), ('u8', 'A = 255, B'), ('u8', 'A = -1'), ('i8', 'A = -129'))])
    bad('largest sizes', 'A largest size needs the codec and bounded fields.', (('E0277',), '#[derive(::oct::encode::SizedEncode)] struct S(u8);', 'a largest size without a codec'), (('E0277',), D3 + ' enum E { A(alloc::string::String) }', 'a largest size would be declared for an unbounded field'))
    return out

def typed(*fs, pre=None, least=0):
    """a property that is decided by programs that the compiler accepts and refuses"""
    def run(rep, tier):
        import check
        rep.level = 'other'
        rep.cov['explanation'] = 'Type-level witnesses: the compiler judges, against the current oct, programs that must be accepted and twins one construct away that must be refused (types, lifetimes, borrows, visibility, unsafety, auto traits, trait bounds). Nothing is linked or run.'
        its = [i for f in fs for i in f()]
        typing_.decide(rep, its, PRE if pre is None else pre)
        check.floor(rep, 'witness programs', rep.oblig, least)
    return run
def feat(rep, tier):
    rep.level = 'other'
    rep.cov['explanation'] = 'oct is type-checked with every combination of its features, the crates its metadata depends on are listed, and type-level witnesses of what each combination must offer are type-checked against it. Nothing is linked or run.'
    features(rep, tier)
