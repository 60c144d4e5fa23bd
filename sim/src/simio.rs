//! Simulated reader and writer: short operations, interruptions, errors, early ends.
use std::io::{self, ErrorKind, Read, Write};
use vsim_base::{tape, trace, tracing};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    /// Never fails.
    No,
    /// The operation that reaches this offset gets an error.
    Error(usize),
    /// The stream ends (reader) or takes no more bytes (writer) here.
    Stop(usize),
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub end: End,
    pub short: bool,
    pub eintr: bool,
    pub failed: bool,
    pub reads: u64,
    pub after: u64,
    pub shorts: u64,
    pub eintrs: u64,
}

pub fn marker(at: usize) -> String {
    vsim_base::probe::dressed(&format!("SIMFAULT-IO{at}."))
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        SimReader { data, pos: 0, end: End::No, short: false, eintr: false, failed: false, reads: 0, after: 0, shorts: 0, eintrs: 0 }
    }
}

impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.failed {
            self.after += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr && !self.failed && tape::chance(1, 4) {
            self.eintrs += 1;
            if tracing() {
                trace(&format!("  FAULT: read at byte {} interrupted", self.pos));
            }
            return Err(ErrorKind::Interrupted.into());
        }
        let limit = match self.end {
            End::No => self.data.len(),
            End::Error(n) | End::Stop(n) => n.min(self.data.len()),
        };
        if self.pos >= limit {
            if let End::Error(n) = self.end {
                if self.pos >= n {
                    self.failed = true;
                    if tracing() {
                        trace(&format!("  FAULT: read at byte {n} fails with {}", marker(n)));
                    }
                    return Err(io::Error::other(marker(n)));
                }
            }
            if self.end != End::No {
                self.failed = true;
            }
            if tracing() {
                trace(&format!("  reader: end of data at byte {}", self.pos));
            }
            return Ok(0);
        }
        let mut n = buf.len().min(limit - self.pos);
        if self.short && n > 1 {
            let m = 1 + tape::usize_below(n);
            if m < n {
                self.shorts += 1;
                if tracing() {
                    trace(&format!("  FAULT: read at byte {} gives {m} of {n} bytes", self.pos));
                }
            }
            n = m;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    pub end: End,
    pub short: bool,
    pub eintr: bool,
    pub failed: bool,
    pub after: u64,
    pub writes: u64,
    pub shorts: u64,
    pub eintrs: u64,
}

impl SimWriter {
    pub fn new() -> Self {
        SimWriter { out: Vec::new(), end: End::No, short: false, eintr: false, failed: false, after: 0, writes: 0, shorts: 0, eintrs: 0 }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.failed {
            self.after += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr && !self.failed && tape::chance(1, 4) {
            self.eintrs += 1;
            if tracing() {
                trace(&format!("  FAULT: write at byte {} interrupted", self.out.len()));
            }
            return Err(ErrorKind::Interrupted.into());
        }
        let limit = match self.end {
            End::No => usize::MAX,
            End::Error(n) | End::Stop(n) => n,
        };
        if self.out.len() >= limit {
            self.failed = true;
            return match self.end {
                End::Error(n) => {
                    if tracing() {
                        trace(&format!("  FAULT: write at byte {n} fails with {}", marker(n)));
                    }
                    Err(io::Error::other(marker(n)))
                }
                _ => {
                    if tracing() {
                        trace(&format!("  FAULT: writer takes no byte after {}", self.out.len()));
                    }
                    Ok(0)
                }
            };
        }
        let mut n = buf.len().min(limit - self.out.len());
        if self.short && n > 1 {
            let m = 1 + tape::usize_below(n);
            if m < n {
                self.shorts += 1;
                if tracing() {
                    trace(&format!("  FAULT: write at byte {} takes {m} of {n} bytes", self.out.len()));
                }
            }
            n = m;
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
