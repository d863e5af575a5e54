use deku::no_std_io::{ErrorKind, Read, Seek, SeekFrom, Write};

type IoError = deku::no_std_io::Error;
type IoResult<T> = Result<T, IoError>;

pub const NO_FAULT: usize = 1_000_000;
/// beyond this many calls on one source the code under test is looping
const RUNAWAY: usize = 200_000;

fn err(kind: ErrorKind) -> IoError {
    IoError::new(kind, "injected")
}

/// How a source or sink divides the traffic.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sched {
    /// everything asked for
    Full,
    /// at most n bytes per call
    Chunk(usize),
    /// at most n bytes per call, every call preceded by an interruption
    Intr(usize),
    /// pseudo-random sizes and interruptions
    Rand(u64),
}

#[derive(Clone)]
pub struct Pace {
    sched: Sched,
    calls: usize,
    rng: crate::Rng,
}
impl Pace {
    fn new(sched: Sched) -> Self {
        let seed = if let Sched::Rand(s) = sched { s } else { 0 };
        Pace { sched, calls: 0, rng: crate::Rng::new(seed) }
    }
    /// how many of `want` bytes this call may move; None: interrupted
    fn step(&mut self, want: usize) -> Option<usize> {
        self.calls += 1;
        if self.calls > RUNAWAY {
            panic!("runaway: {} calls", self.calls);
        }
        match self.sched {
            Sched::Full => Some(want),
            Sched::Chunk(n) => Some(want.min(n)),
            Sched::Intr(n) => if self.calls % 2 == 1 { None } else { Some(want.min(n)) },
            Sched::Rand(_) => {
                if self.rng.chance(1, 4) {
                    None
                } else {
                    Some(want.min(1 + self.rng.below(4)))
                }
            }
        }
    }
}

/// A byte source. Taking byte number `fault`+1 or later fails (NO_FAULT: never).
pub struct Src {
    pub data: Vec<u8>,
    pub pos: u64,
    pace: Pace,
    pub fault: usize,
    /// only the first failing call fails
    pub once: bool,
    pub kind: ErrorKind,
    /// seek number `seek_fault` and, unless `once`, those after it fail (NO_FAULT: never)
    pub seek_fault: usize,
    pub seek_once: bool,
    pub seeks: usize,
    pub faults_hit: usize,
}
impl Src {
    pub fn new(data: &[u8], sched: Sched) -> Self {
        Src {
            data: data.to_vec(), pos: 0, pace: Pace::new(sched), fault: NO_FAULT, once: false,
            kind: ErrorKind::PermissionDenied, seek_fault: NO_FAULT, seek_once: false, seeks: 0, faults_hit: 0,
        }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let Some(n) = self.pace.step(buf.len()) else {
            return Err(err(ErrorKind::Interrupted));
        };
        let pos = self.pos.min(usize::MAX as u64) as usize;
        let armed = self.fault != NO_FAULT && !(self.once && self.faults_hit > 0);
        if armed && pos >= self.fault {
            self.faults_hit += 1;
            return Err(err(self.kind));
        }
        let limit = if armed { self.data.len().min(self.fault) } else { self.data.len() };
        let n = n.min(limit.saturating_sub(pos));
        buf[..n].copy_from_slice(&self.data[pos.min(limit)..pos.min(limit) + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
fn seek_faulty(nth: usize, fault: usize, once: bool) -> bool {
    fault != NO_FAULT && (nth == fault || (nth > fault && !once))
}
fn seek_to(cur: u64, len: usize, to: SeekFrom) -> IoResult<u64> {
    let t: i128 = match to {
        SeekFrom::Start(n) => n as i128,
        SeekFrom::Current(n) => cur as i128 + n as i128,
        SeekFrom::End(n) => len as i128 + n as i128,
    };
    if t < 0 || t > u64::MAX as i128 {
        return Err(err(ErrorKind::InvalidInput));
    }
    Ok(t as u64)
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.pace.calls += 1;
        if self.pace.calls > RUNAWAY {
            panic!("runaway: {} calls", self.pace.calls);
        }
        self.seeks += 1;
        if seek_faulty(self.seeks - 1, self.seek_fault, self.seek_once) {
            self.faults_hit += 1;
            return Err(err(self.kind));
        }
        self.pos = seek_to(self.pos, self.data.len(), to)?;
        Ok(self.pos)
    }
}

/// A byte sink. Accepting byte number `fault`+1 or later fails.
pub struct Sink {
    pub data: Vec<u8>,
    pub pos: u64,
    pace: Pace,
    pub fault: usize,
    pub kind: ErrorKind,
    /// seek number `seek_fault` and, unless `once`, those after it fail (NO_FAULT: never)
    pub seek_fault: usize,
    pub seek_once: bool,
    pub seeks: usize,
    pub faults_hit: usize,
    /// at the fault, accept nothing more instead of failing (write returns 0)
    pub zero: bool,
}
impl Sink {
    pub fn new(sched: Sched) -> Self {
        Sink {
            data: vec![], pos: 0, pace: Pace::new(sched), fault: NO_FAULT,
            kind: ErrorKind::PermissionDenied, seek_fault: NO_FAULT, seek_once: false, seeks: 0, faults_hit: 0, zero: false,
        }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let Some(n) = self.pace.step(buf.len()) else {
            return Err(err(ErrorKind::Interrupted));
        };
        let pos = self.pos as usize;
        if pos >= self.fault {
            self.faults_hit += 1;
            return if self.zero { Ok(0) } else { Err(err(self.kind)) };
        }
        let n = n.min(self.fault - pos);
        if pos + n > 1 << 20 {
            return Err(err(ErrorKind::OutOfMemory));
        }
        if self.data.len() < pos + n {
            self.data.resize(pos + n, 0);
        }
        self.data[pos..pos + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.seeks += 1;
        if seek_faulty(self.seeks - 1, self.seek_fault, self.seek_once) {
            self.faults_hit += 1;
            return Err(err(self.kind));
        }
        self.pos = seek_to(self.pos, self.data.len(), to)?;
        Ok(self.pos)
    }
}
