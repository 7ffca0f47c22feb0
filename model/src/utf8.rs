//! C16, C17: byte streams and sinks which deliver or accept any number of bytes at a time and may fail.
use crate::env;
use serdere::*;
use std::io;

pub struct Src;
impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n: Option<usize> = env::ask("read", buf.len());
        match n {
            None => Err(env::ask("fault", ())),
            Some(n) => {
                let mut i = 0;
                while i < n {
                    buf[i] = env::ask("byte", ());
                    i += 1;
                }
                Ok(n)
            }
        }
    }
    /// As documented: any number of reads until the buffer is full, or an error.
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let mut i = 0;
        while i < buf.len() {
            let n: Option<usize> = env::ask("read", 1usize);
            match n {
                None => return Err(env::ask("fault", ())),
                Some(0) => return Err(env::ask("eof", ())),
                Some(_) => buf[i] = env::ask("byte", ()),
            }
            i += 1;
        }
        Ok(())
    }
}
pub struct Snk;
impl io::Write for Snk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n: Option<usize> = env::ask("write", buf.len());
        match n {
            None => Err(env::ask("fault", ())),
            Some(n) => {
                let mut i = 0;
                while i < n {
                    env::note("byte", buf[i]);
                    i += 1;
                }
                Ok(n)
            }
        }
    }
    /// As documented: all of the bytes, or an error.
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        let mut i = 0;
        while i < buf.len() {
            let n: Option<usize> = env::ask("write", 1usize);
            match n {
                None => return Err(env::ask("fault", ())),
                _ => env::note("byte", buf[i]),
            }
            i += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn done(r: io::Result<Option<char>>) {
    match r {
        Ok(Some(c)) => env::note("char", c),
        Ok(None) => env::note("none", ()),
        Err(e) => env::note("error", e),
    }
}
/// One character at a time.
fn r_u_read() {
    loop {
        done(read_utf8(&mut Src));
    }
}
/// A reader which tracks its position.
fn r_u_reader() {
    let mut r = match Utf8Reader::new(Src) {
        Ok(r) => r,
        Err(e) => {
            env::note("error", e);
            env::stop()
        }
    };
    env::note("new", ());
    loop {
        let p = r.position();
        env::note("position", (p.line, p.column));
        env::note("peek", r.peek());
        env::note("advance", ());
        let c = r.next();
        env::note("next", c);
    }
}
fn wrote(r: io::Result<()>) {
    match r {
        Ok(()) => env::note("wrote", ()),
        Err(e) => env::note("error", e),
    }
}
fn r_u_write_char() {
    let mut w = Utf8Writer::new(Snk);
    loop {
        wrote(w.write_char(env::ask("char", ())));
    }
}
fn r_u_write_str() {
    let mut w = Utf8Writer::new(Snk);
    loop {
        wrote(w.write_str(env::ask("str", ())));
    }
}
fn r_u_write_inner() {
    let w = Utf8Writer::new(Snk);
    let _ = w.into_inner();
}
/// Text is collected in a string.
fn r_u_string() {
    let mut s = String::new();
    let c: char = env::ask("char", ());
    let t: &str = env::ask("str", ());
    let _ = TextWriter::write_char(&mut s, c);
    let _ = TextWriter::write_str(&mut s, t);
    let _ = TextWriter::write_char(&mut s, c);
    env::note("collected", &*s);
}
