//! Unbuffered standard input and output.
use std::io;

extern "C" {
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}
pub struct StreamReader(());
impl StreamReader {
    pub fn stdin() -> io::Result<Self> {
        Ok(StreamReader(()))
    }
}
impl io::Read for StreamReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = unsafe { read(0, b.as_mut_ptr(), b.len()) };
        if n < 0 { Err(io::Error::last_os_error()) } else { Ok(n as usize) }
    }
}
pub struct StreamWriter(i32);
impl StreamWriter {
    pub fn stdout() -> io::Result<Self> {
        Ok(StreamWriter(1))
    }
    pub fn stderr() -> io::Result<Self> {
        Ok(StreamWriter(2))
    }
}
impl io::Write for StreamWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = unsafe { write(self.0, b.as_ptr(), b.len()) };
        if n < 0 { Err(io::Error::last_os_error()) } else { Ok(n as usize) }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
