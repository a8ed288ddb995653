//! Standard streams of virtual processes.
use crate::world::{active, cur_proc, w};
use std::io::{self, BufRead, Read, Write};

pub fn out(s: &str) {
    if let Err(e) = write_to(1, s.as_bytes()) {
        panic!("failed printing to stdout: {e}");
    }
}
pub fn err(s: &str) {
    let _ = write_to(2, s.as_bytes());
}
/// Standard output that is about to be full, behind the buffer the real one has.
pub struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let p = &mut w().procs[self.0];
        let n = b.len().min(p.out_room.unwrap_or(usize::MAX));
        if n == 0 && !b.is_empty() {
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        p.out_room = p.out_room.map(|x| x - n);
        p.stdout.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn full() -> Option<&'static mut io::LineWriter<Full>> {
    if !active() || w().cur == usize::MAX {
        return None;
    }
    let p = cur_proc();
    p.out_room?;
    let pid = p.pid;
    Some(p.out_buf.get_or_insert_with(|| io::LineWriter::new(Full(pid))))
}
fn write_to(fd: i32, b: &[u8]) -> io::Result<()> {
    if let (1, Some(f)) = (fd, full()) {
        return f.write_all(b);
    }
    if active() && w().cur != usize::MAX {
        let p = cur_proc();
        if p.null_io {
        } else if fd == 1 {
            p.stdout.extend_from_slice(b);
        } else {
            p.stderr.extend_from_slice(b);
        }
    } else if fd == 1 {
        let _ = ::std::io::stdout().write_all(b);
    } else {
        let _ = ::std::io::stderr().write_all(b);
    }
    Ok(())
}
fn flush_to(fd: i32) -> io::Result<()> {
    match (fd, full()) {
        (1, Some(f)) => f.flush(),
        _ => Ok(()),
    }
}
macro_rules! o {
    ($t:ident, $l:ident, $f:ident, $fd:expr) => {
        #[derive(Debug)]
        pub struct $t;
        #[derive(Debug)]
        pub struct $l<'a>(std::marker::PhantomData<&'a ()>);
        pub fn $f() -> $t {
            $t
        }
        impl $t {
            pub fn lock(&self) -> $l<'static> {
                $l(std::marker::PhantomData)
            }
            pub fn is_terminal(&self) -> bool {
                false
            }
        }
        impl Write for $t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                write_to($fd, b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                flush_to($fd)
            }
        }
        impl Write for &$t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                write_to($fd, b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                flush_to($fd)
            }
        }
        impl Write for $l<'_> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                write_to($fd, b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                flush_to($fd)
            }
        }
    };
}
o!(Stdout, StdoutLock, stdout, 1);
o!(Stderr, StderrLock, stderr, 2);

#[derive(Debug)]
pub struct Stdin;
#[derive(Debug)]
pub struct StdinLock<'a>(std::marker::PhantomData<&'a ()>);
pub fn stdin() -> Stdin {
    Stdin
}
fn read_in(b: &mut [u8]) -> usize {
    let p = cur_proc();
    let n = b.len().min(p.stdin.len() - p.stdin_pos);
    b[..n].copy_from_slice(&p.stdin[p.stdin_pos..p.stdin_pos + n]);
    p.stdin_pos += n;
    n
}
impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        StdinLock(std::marker::PhantomData)
    }
    pub fn read_line(&self, s: &mut String) -> io::Result<usize> {
        self.lock().read_line(s)
    }
    pub fn lines(self) -> io::Lines<StdinLock<'static>> {
        self.lock().lines()
    }
    pub fn is_terminal(&self) -> bool {
        false
    }
}
impl Read for Stdin {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        Ok(read_in(b))
    }
}
impl Read for StdinLock<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        Ok(read_in(b))
    }
}
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let p = cur_proc();
        Ok(&p.stdin[p.stdin_pos..])
    }
    fn consume(&mut self, n: usize) {
        cur_proc().stdin_pos += n;
    }
}
