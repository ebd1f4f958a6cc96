include!("prelude_tr.rs");
// Stand-ins for the formatting functions of the standard library that come without MIR: they follow
// the documented encoding of `fmt::Arguments`.
pub mod vf_shim {
    use std::fmt::{self, Arguments, Formatter, FormattingOptions, Write};
    struct Parts<'a> { buf: &'a mut dyn Write, _options: FormattingOptions }
    #[repr(C)] struct Arg { value: *const (), show: fn(*const (), &mut Formatter<'_>) -> fmt::Result }
    fn parts<'a, 'b>(f: &'a mut Formatter<'b>) -> &'a mut Parts<'b> { unsafe { &mut *(f as *mut Formatter<'b> as *mut Parts<'b>) } }
    fn text<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) } }
    pub fn write(out: &mut dyn Write, a: Arguments<'_>) -> fmt::Result {
        let (mut t, args): (*const u8, *const Arg) = unsafe { std::mem::transmute(a) };
        if !crate::mk::is_address(args) { return out.write_str(text(t, unsafe { std::mem::transmute::<_, usize>(args) } >> 1)); }
        let mut next = 0usize;
        loop {
            let n = unsafe { *t };
            t = unsafe { t.add(1) };
            if n == 0 { return Ok(()); }
            if n < 0x80 {
                if out.write_str(text(t, n as usize)).is_err() { return Err(fmt::Error); }
                t = unsafe { t.add(n as usize) };
            } else {
                let w = |t: *const u8| unsafe { *t as usize + 256 * *t.add(1) as usize };
                let mut o = FormattingOptions::new();
                if n == 0x80 {
                    let l = w(t); t = unsafe { t.add(2) };
                    if out.write_str(text(t, l)).is_err() { return Err(fmt::Error); }
                    t = unsafe { t.add(l) };
                    continue;
                }
                if n & 1 != 0 { t = unsafe { t.add(4) }; }
                if n & 2 != 0 { o.width(Some(w(t) as u16)); t = unsafe { t.add(2) }; }
                if n & 4 != 0 { o.precision(Some(w(t) as u16)); t = unsafe { t.add(2) }; }
                if n & 8 != 0 { next = w(t); t = unsafe { t.add(2) }; }
                let r = unsafe { let a = &*args.add(next); (a.show)(a.value, &mut Formatter::new(out, o)) };
                if r.is_err() { return Err(fmt::Error); }
                next += 1;
            }
        }
    }
    pub fn format(a: Arguments<'_>) -> String { let mut s = String::new(); let _ = write(&mut s, a); s }
    pub fn to_string_i32(x: &i32) -> String { let b = [crate::mk::text_of(*x)]; String::from(text(&b[0], 1)) }
    pub fn to_string_usize(n: &usize) -> String { let mut s = String::new(); let _ = display_usize(n, &mut Formatter::new(&mut s, FormattingOptions::new())); s }
    pub fn formatter_write_fmt(f: &mut Formatter<'_>, a: Arguments<'_>) -> fmt::Result { write(parts(f).buf, a) }
    pub fn formatter_write_str(f: &mut Formatter<'_>, s: &str) -> fmt::Result { parts(f).buf.write_str(s) }
    pub fn formatter_pad(f: &mut Formatter<'_>, s: &str) -> fmt::Result { parts(f).buf.write_str(s) }
    pub fn formatter_write_char(f: &mut Formatter<'_>, c: char) -> fmt::Result { let b = [c as u32 as u8]; parts(f).buf.write_str(text(&b[0], 1)) }
    pub fn display_str(s: &str, f: &mut Formatter<'_>) -> fmt::Result { parts(f).buf.write_str(s) }
    pub fn display_char(c: &char, f: &mut Formatter<'_>) -> fmt::Result { formatter_write_char(f, *c) }
    // the text of a number is one unknown byte
    pub fn display_f64(x: &f64, f: &mut Formatter<'_>) -> fmt::Result { let b = [crate::mk::text_of(*x)]; parts(f).buf.write_str(text(&b[0], 1)) }
    pub fn display_f32(x: &f32, f: &mut Formatter<'_>) -> fmt::Result { let b = [crate::mk::text_of(*x)]; parts(f).buf.write_str(text(&b[0], 1)) }
    pub fn display_i32(x: &i32, f: &mut Formatter<'_>) -> fmt::Result { let b = [crate::mk::text_of(*x)]; parts(f).buf.write_str(text(&b[0], 1)) }
    pub fn display_usize(n: &usize, f: &mut Formatter<'_>) -> fmt::Result {
        let mut d = 1;
        while *n / d >= 10 { d *= 10; }
        while d > 0 { let b = [b'0' + (*n / d % 10) as u8]; if parts(f).buf.write_str(text(&b[0], 1)).is_err() { return Err(fmt::Error); } d /= 10; }
        Ok(())
    }
}
use std::fmt;
/// A writer that keeps the bytes and fails at the write that would exceed `room` bytes.
pub struct Rec<const L: usize> { pub buf: [u8; L], pub n: usize, pub room: usize }
impl<const L: usize> fmt::Write for Rec<L> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.n + b.len() > self.room { return Err(fmt::Error); }
        let mut i = 0;
        while i < b.len() { self.buf[self.n] = b[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
pub fn shown<T: fmt::Display>(x: &T, room: usize) -> (bool, Rec<200>) {
    let mut r = Rec { buf: [0; 200], n: 0, room };
    let ok = x.fmt(&mut fmt::Formatter::new(&mut r, fmt::FormattingOptions::new())).is_ok();
    (ok, r)
}
/// The text is `t` with each `#` replaced by the text of the next component, and a failing writer is reported at every point.
pub fn reads<T: fmt::Display, S: Copy, const N: usize>(x: &T, t: &str, c: [S; N]) {
    let t = t.as_bytes();
    let mut e = [0u8; 200];
    let (mut i, mut k) = (0, 0);
    while i < t.len() { if t[i] == b'#' { e[i] = text_of(c[k]); k += 1; } else { e[i] = t[i]; } i += 1; }
    let (ok, r) = shown(x, 200);
    holds(ok); same(r.n, t.len()); same(k, N); same(r.buf, e);
    let mut room = 0;
    let mut silent = false;
    while room < t.len() { let (ok, _) = shown(x, room); silent = silent | ok; room += 1; }
    holds(!silent);
}
