#![allow(unused)]
//! Byte streams: bounds, cursor, contents.
use oct::decode::Input;
use oct::encode::Output;
use std::borrow::Borrow;
use vrt::*;

pub fn check_output_new(buf: &mut [u8]) {
	let n = buf.len();
	let o = Output::new(buf);
	require(o.capacity() == n, "the capacity is the length of the buffer");
	require(o.position() == 0, "a new stream starts at the beginning");
	require(o.remaining() == n, "everything remains in a new stream");
	require(o.as_slice().is_empty(), "nothing is written to a new stream");
}
pub fn check_output_accessors(o: &mut Output<'_>, j: usize) {
	require(o.position() <= o.capacity(), "the cursor stays inside of the buffer");
	require(o.remaining() == o.capacity() - o.position(), "what remains is the capacity without what was written");
	let s = o.as_slice();
	require(s.len() == o.position(), "the written part ends at the cursor");
	require(core::ptr::eq(s.as_ptr(), o.as_ptr()), "the written part starts at the beginning");
	let a: &[u8] = o.as_ref();
	let b: &[u8] = (*o).borrow();
	require(a.len() == s.len() && b.len() == s.len(), "views agree");
	if j < s.len() {
		require(a[j] == s[j] && b[j] == s[j], "views agree");
	}
}
/// two writes through a stream over an arbitrary buffer
pub fn check_output_write(buf: &mut [u8], a: &[u8], b: &[u8], j: usize) {
	let n = buf.len();
	let old = if j < n { buf[j] } else { 0 };
	let mut o = Output::new(buf);
	match o.write(a) {
		Ok(()) => require(a.len() <= n, "a write succeeds only if it fits"),
		Err(e) => {
			require(a.len() > n, "a write fails only if it does not fit");
			require(e.capacity == n && e.position == 0 && e.count == a.len(), "the error describes the failed write");
			require(o.position() == 0 && o.capacity() == n, "a failed write leaves the stream as it was");
			if j < n { require(buf[j] == old, "a failed write leaves the buffer as it was"); }
			return;
		}
	}
	let p = a.len();
	require(o.position() == p && o.capacity() == n, "a write advances the cursor by its length");
	match o.write(b) {
		Ok(()) => {
			require(b.len() <= n - p, "a write succeeds only if it fits");
			require(o.position() == p + b.len() && o.capacity() == n, "a write advances the cursor by its length");
			require(o.as_slice().len() == p + b.len(), "the written part ends at the cursor");
			let s = o.as_slice();
			if j < p { require(s[j] == a[j], "earlier writes stay"); }
			else if j < p + b.len() { require(s[j] == b[j - p], "the written bytes are at the cursor"); }
			drop(o);
			if j < p { require(buf[j] == a[j], "earlier writes stay"); }
			else if j < p + b.len() { require(buf[j] == b[j - p], "the written bytes are at the cursor"); }
			else if j < n { require(buf[j] == old, "the rest of the buffer stays untouched"); }
		}
		Err(e) => {
			require(b.len() > n - p, "a write fails only if it does not fit");
			require(e.capacity == n && e.position == p && e.count == b.len(), "the error describes the failed write");
			require(o.position() == p && o.capacity() == n, "a failed write leaves the stream as it was");
			if j < p { require(buf[j] == a[j], "a failed write leaves the buffer as it was"); }
			else if j < n { require(buf[j] == old, "a failed write leaves the buffer as it was"); }
		}
	}
}
/// one write at an arbitrary position
pub fn check_output_write_any(o: &mut Output<'_>, d: &[u8], j: usize) {
	let p = o.position(); let n = o.capacity();
	assume(p <= n);
	let old = if j < p { o.as_slice()[j] } else { 0 };
	let r = o.write(d);
	require(o.capacity() == n, "the capacity never changes");
	require(o.position() <= o.capacity(), "the cursor stays inside of the buffer");
	match r {
		Ok(()) => {
			require(d.len() <= n - p, "a write succeeds only if it fits");
			require(o.position() == p + d.len(), "a write advances the cursor by its length");
			let s = o.as_slice();
			if j < p { require(s[j] == old, "earlier writes stay"); }
			else if j < p + d.len() { require(s[j] == d[j - p], "the written bytes are at the cursor"); }
		}
		Err(e) => {
			require(d.len() > n - p, "a write fails only if it does not fit");
			require(e.capacity == n && e.position == p && e.count == d.len(), "the error describes the failed write");
			require(o.position() == p, "a failed write leaves the stream as it was");
			if j < p { require(o.as_slice()[j] == old, "a failed write leaves the buffer as it was"); }
		}
	}
}
pub fn check_output_eq(a: &Output<'_>, b: &Output<'_>, s: &[u8]) {
	require((a == b) == (a.as_slice() == b.as_slice()), "streams are equal if what was written is equal");
	require((*a == *s) == (a.as_slice() == s), "a stream equals a slice if what was written equals it");
	require((*a == s) == (a.as_slice() == s), "a stream equals a slice if what was written equals it");
}
pub fn check_output_eq_mut(a: &Output<'_>, s: &mut [u8]) {
	let e = a.as_slice() == &*s;
	require((*a == s) == e, "a stream equals a slice if what was written equals it");
}

pub fn check_input_new(buf: &[u8]) {
	let i = Input::new(buf);
	require(i.capacity() == buf.len(), "the capacity is the length of the buffer");
	require(i.position() == 0, "a new stream starts at the beginning");
	require(i.remaining() == buf.len(), "everything remains in a new stream");
}
pub fn check_input_accessors(i: &Input<'_>) {
	require(i.position() <= i.capacity(), "the cursor stays inside of the buffer");
	require(i.remaining() == i.capacity() - i.position(), "what remains is the capacity without what was read");
}
/// a read after an arbitrary read
pub fn check_input_read(buf: &[u8], a: usize, b: usize, j: usize) {
	let n = buf.len();
	let mut i = Input::new(buf);
	match i.read(a) {
		Ok(s) => {
			require(a <= n, "a read succeeds only if enough remains");
			require(s.len() == a, "a read yields what was asked for");
			if j < a { require(s[j] == buf[j], "a read yields the bytes at the cursor"); }
		}
		Err(e) => {
			require(a > n, "a read fails only if too little remains");
			require(e.capacity == n && e.position == 0 && e.count == a, "the error describes the failed read");
			require(i.position() == 0 && i.capacity() == n && i.remaining() == n, "a failed read leaves the stream as it was");
			return;
		}
	}
	require(i.position() == a && i.capacity() == n && i.remaining() == n - a, "a read advances the cursor by its length");
	match i.read(b) {
		Ok(s) => {
			require(b <= n - a, "a read succeeds only if enough remains");
			require(s.len() == b, "a read yields what was asked for");
			if j < b { require(s[j] == buf[a + j], "a read yields the bytes at the cursor"); }
			require(i.position() == a + b && i.capacity() == n && i.remaining() == n - a - b, "a read advances the cursor by its length");
		}
		Err(e) => {
			require(b > n - a, "a read fails only if too little remains");
			require(e.capacity == n && e.position == a && e.count == b, "the error describes the failed read");
			require(i.position() == a && i.capacity() == n && i.remaining() == n - a, "a failed read leaves the stream as it was");
		}
	}
}
pub fn check_input_read_into(buf: &[u8], a: usize, d: &mut [u8], j: usize) {
	let n = buf.len();
	let old = if j < d.len() { d[j] } else { 0 };
	let b = d.len();
	let mut i = Input::new(buf);
	if i.read(a).is_err() { return; }
	match i.read_into(d) {
		Ok(()) => {
			require(b <= n - a, "a read succeeds only if enough remains");
			if j < b { require(d[j] == buf[a + j], "a read yields the bytes at the cursor"); }
			require(i.position() == a + b && i.capacity() == n && i.remaining() == n - a - b, "a read advances the cursor by its length");
		}
		Err(e) => {
			require(b > n - a, "a read fails only if too little remains");
			require(e.capacity == n && e.position == a && e.count == b, "the error describes the failed read");
			require(i.position() == a && i.capacity() == n && i.remaining() == n - a, "a failed read leaves the stream as it was");
			if j < b { require(d[j] == old, "a failed read leaves the destination as it was"); }
		}
	}
}
pub fn check_input_read_any(i: &mut Input<'_>, b: usize) {
	let p = i.position(); let n = i.capacity();
	assume(p <= n);
	let r = i.read(b);
	require(i.capacity() == n, "the capacity never changes");
	match r {
		Ok(s) => {
			require(b <= n - p && s.len() == b, "a read yields what was asked for");
			require(i.position() == p + b, "a read advances the cursor by its length");
		}
		Err(e) => {
			require(b > n - p, "a read fails only if too little remains");
			require(e.capacity == n && e.position == p && e.count == b, "the error describes the failed read");
			require(i.position() == p, "a failed read leaves the stream as it was");
		}
	}
	require(i.position() <= i.capacity(), "the cursor stays inside of the buffer");
	require(i.remaining() == i.capacity() - i.position(), "what remains is the capacity without what was read");
}
/// bytes that were written are read back by a reader over the same buffer
pub fn check_handover(buf: &mut [u8], a: &[u8], b: &[u8], j: usize) {
	let mut o = Output::new(buf);
	if o.write(a).is_err() || o.write(b).is_err() { return; }
	let mut i = Input::new(o.as_slice());
	require(i.capacity() == a.len() + b.len(), "a reader over the written part holds all of it");
	match i.read(a.len()) {
		Ok(s) => if j < a.len() { require(s[j] == a[j], "bytes are read back in order"); },
		Err(_) => unreachable("what was written can be read"),
	}
	match i.read(b.len()) {
		Ok(s) => if j < b.len() { require(s[j] == b[j], "bytes are read back in order"); },
		Err(_) => unreachable("what was written can be read"),
	}
	require(i.remaining() == 0, "nothing is left");
}
