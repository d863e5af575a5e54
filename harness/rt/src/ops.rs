//! Running one definition through every entry point under a given environment
//! and recording what was observed.
use crate::guard::{catch, peak_of};
use crate::io::*;
use crate::tree::*;
use crate::Rng;
use deku::no_std_io::ErrorKind;
use deku::prelude::*;
use std::fmt::Write as _;

/// class of an error: its variant name, and the kind of an I/O error
pub fn class(e: &DekuError) -> (String, String) {
    let s = format!("{e:?}");
    let name: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
    let kind = if name == "Io" { s[3..s.len() - 1].to_string() } else { String::new() };
    (name, kind)
}

/// a status: "ok", an error class, or "panic"
pub fn status<T>(r: &Result<Result<T, DekuError>, String>, o: &mut String) -> bool {
    match r {
        Ok(Ok(_)) => {
            o.push_str("\"st\":\"ok\"");
            true
        }
        Ok(Err(e)) => {
            let (c, k) = class(e);
            let _ = write!(o, "\"st\":\"{c}\",\"kd\":\"{k}\"");
            false
        }
        Err(m) => {
            let m: String = m.chars().filter(|c| c.is_ascii_alphanumeric() || " .:_/".contains(*c)).collect();
            let _ = write!(o, "\"st\":\"panic\",\"kd\":\"{m}\"");
            false
        }
    }
}

pub fn put_bits(o: &mut String, it: impl Iterator<Item = bool>) {
    o.push('[');
    for (i, b) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push(if b { '1' } else { '0' });
    }
    o.push(']');
}

#[derive(Clone, Copy, Debug)]
pub struct Env {
    pub sched: Sched,
    pub len: usize,
    pub fault: usize,
    pub once: bool,
    pub seek_fault: usize,
    pub noseek: bool,
    pub kind: ErrorKind,
}
impl Env {
    pub fn plain(len: usize) -> Self {
        Env { sched: Sched::Full, len, fault: NO_FAULT, once: false, seek_fault: NO_FAULT, noseek: false,
              kind: ErrorKind::PermissionDenied }
    }
    fn src(&self, data: &[u8]) -> Src {
        let mut s = Src::new(&data[..self.len], self.sched);
        s.fault = self.fault;
        s.once = self.once;
        s.seek_fault = self.seek_fault;
        s.seek_once = self.once;
        s.kind = self.kind;
        s
    }
    fn sink(&self) -> Sink {
        let mut s = Sink::new(self.sched);
        s.fault = self.fault;
        s.seek_fault = self.seek_fault;
        s.seek_once = self.once;
        s.kind = self.kind;
        s.zero = self.once;
        s
    }
}

/// What can be done with a definition, its type erased.
pub trait Ops: Sync {
    fn name(&self) -> &'static str;
    /// decode through an entry point ("fb", "fr", "fx", "tf"), JSON object of what was observed
    fn read(&self, ep: &str, data: &[u8], off: usize, env: Env) -> String;
    /// bits consumed by a plain successful decode
    fn extent(&self, data: &[u8], off: usize) -> Option<usize>;
    /// a value: decoded from bytes, or generated; None when it cannot be had
    fn value(&self, from: Value) -> Option<Box<dyn Val>>;
    fn size(&self) -> Option<(usize, Option<usize>)>;
    /// up to k values one after the other: "cb" from_bytes on what the one before left, "cr" from_reader on the same
    /// stream, "cx" from_reader_with_ctx on the same Reader
    fn chain_read(&self, ep: &str, data: &[u8], off: usize, k: usize) -> String;
    /// values put into one Writer, then finalised: their trees, what was observed, the bytes
    fn chain_write(&self, seeds: &[u64]) -> (String, String, Option<Vec<u8>>);
}
#[derive(Clone, Copy)]
pub enum Value<'a> {
    Decode(&'a [u8], usize),
    Gen(u64),
}
/// A value of some definition.
pub trait Val {
    fn tree(&self) -> String;
    /// encode through an entry point ("tb", "ti", "sl", "tw", "vv", "vb")
    fn write(&self, ep: &str, slice: usize, env: Env) -> String;
    fn bytes(&self) -> Option<Vec<u8>>;
    /// decode the given bytes and compare with this value
    fn same_as_decoded(&self, data: &[u8]) -> Option<bool>;
    fn id(&self) -> Option<String>;
    fn update(&mut self) -> Option<String>;
}

pub trait Ty:
    for<'a> DekuContainerRead<'a> + for<'a> TryFrom<&'a [u8], Error = DekuError> + DekuContainerWrite + Tree + PartialEq + Clone + 'static
{
}
impl<T> Ty for T where
    T: for<'a> DekuContainerRead<'a> + for<'a> TryFrom<&'a [u8], Error = DekuError> + DekuContainerWrite + Tree + PartialEq + Clone + 'static
{
}

pub struct Op<T> {
    pub name: &'static str,
    pub size: Option<(usize, Option<usize>)>,
    pub id: Option<fn(&T) -> Result<String, DekuError>>,
    pub update: Option<fn(&mut T) -> Result<(), DekuError>>,
    pub to_vec: ToVec<T>,
    pub to_bitvec: ToBits<T>,
}
struct V<T> {
    v: T,
    id: Option<fn(&T) -> Result<String, DekuError>>,
    update: Option<fn(&mut T) -> Result<(), DekuError>>,
    #[allow(dead_code)]
    to_vec: ToVec<T>,
    #[allow(dead_code)]
    to_bitvec: ToBits<T>,
}

fn value_part<T: Tree>(o: &mut String, v: &T) {
    o.push_str(",\"v\":");
    v.tree(o);
}

impl<T: Ty> Ops for Op<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn read(&self, ep: &str, data: &[u8], off: usize, env: Env) -> String {
        let mut o = format!("{{\"ep\":\"{ep}\",");
        match ep {
            "fb" => {
                let data = &data[..env.len];
                let (peak, r) = peak_of(|| catch(|| T::from_bytes((data, off))));
                if status(&r, &mut o) {
                    let ((rest, bo), v) = r.unwrap().unwrap();
                    // the remainder must be a suffix of the input
                    let suffix = rest.len() <= data.len() && rest == &data[data.len() - rest.len()..];
                    let _ = write!(o, ",\"bi\":{},\"bo\":{},\"sx\":{}", data.len() - rest.len().min(data.len()), bo, suffix as u8);
                    value_part(&mut o, &v);
                }
                let _ = write!(o, ",\"al\":{}", peak.min(1 << 30));
            }
            "fr" if !env.noseek => {
                let mut src = env.src(data);
                let (peak, r) = peak_of(|| catch(|| T::from_reader((&mut src, off))));
                if status(&r, &mut o) {
                    let (n, v) = r.unwrap().unwrap();
                    let _ = write!(o, ",\"n\":{},\"pos\":{}", n.min(1 << 30), src.pos.min(1 << 30));
                    value_part(&mut o, &v);
                }
                let _ = write!(o, ",\"al\":{},\"hit\":{}", peak.min(1 << 30), (src.faults_hit > 0) as u8);
            }
            "fr" => {
                let mut src = deku::noseek::NoSeek::new(env.src(data));
                let (peak, r) = peak_of(|| catch(|| T::from_reader((&mut src, off))));
                if status(&r, &mut o) {
                    let (n, v) = r.unwrap().unwrap();
                    let _ = write!(o, ",\"n\":{},\"pos\":{}", n.min(1 << 30), src.get_ref().pos.min(1 << 30));
                    value_part(&mut o, &v);
                }
                let _ = write!(o, ",\"al\":{},\"hit\":{}", peak.min(1 << 30), (src.get_ref().faults_hit > 0) as u8);
            }
            "fx" => {
                let mut src = env.src(data);
                let mut n = 0;
                let mut rest: Vec<bool> = vec![];
                let _ = &mut rest;
                let (peak, r) = peak_of(|| {
                    catch(|| {
                        let mut rd = Reader::new(&mut src);
                        #[cfg(feature = "bits")]
                        rd.skip_bits(off, deku::ctx::Order::Msb0)?;
                        let r = T::from_reader_with_ctx(&mut rd, ());
                        n = rd.bits_read;
                        #[cfg(feature = "alloc")]
                        {
                            rest = rd.rest();
                        }
                        r
                    })
                });
                if status(&r, &mut o) {
                    let _ = write!(o, ",\"n\":{},\"pos\":{},\"rs\":", n.min(1 << 30), src.pos.min(1 << 30));
                    put_bits(&mut o, rest.into_iter());
                    value_part(&mut o, &r.unwrap().unwrap());
                }
                let _ = write!(o, ",\"al\":{}", peak.min(1 << 30));
            }
            "tf" => {
                let data = &data[..env.len];
                let (peak, r) = peak_of(|| catch(|| T::try_from(data)));
                if status(&r, &mut o) {
                    value_part(&mut o, &r.unwrap().unwrap());
                }
                let _ = write!(o, ",\"al\":{}", peak.min(1 << 30));
            }
            _ => unreachable!(),
        }
        o.push('}');
        o
    }
    fn extent(&self, data: &[u8], off: usize) -> Option<usize> {
        let mut src = Src::new(data, Sched::Full);
        match catch(|| T::from_reader((&mut src, off))) {
            Ok(Ok((n, _))) => Some(n),
            _ => None,
        }
    }
    fn value(&self, from: Value) -> Option<Box<dyn Val>> {
        let v = match from {
            Value::Gen(seed) => T::gen(&mut Rng::new(seed), ANY),
            Value::Decode(d, off) => {
                let mut src = Src::new(d, Sched::Full);
                catch(|| T::from_reader((&mut src, off))).ok()?.ok()?.1
            }
        };
        Some(Box::new(V {
            v, id: self.id, update: self.update, to_vec: self.to_vec, to_bitvec: self.to_bitvec,
        }))
    }
    fn size(&self) -> Option<(usize, Option<usize>)> {
        self.size
    }
    fn chain_read(&self, ep: &str, data: &[u8], off: usize, k: usize) -> String {
        let mut o = String::from("[");
        let mut put = |i: usize, r: &Result<Result<T, DekuError>, String>, n: usize, pos: usize| -> bool {
            o.push_str(if i > 0 { ",{" } else { "{" });
            let ok = status(r, &mut o);
            if ok {
                let _ = write!(o, ",\"n\":{},\"pos\":{}", n.min(1 << 30), pos.min(1 << 30));
                value_part(&mut o, r.as_ref().unwrap().as_ref().unwrap());
            }
            o.push('}');
            ok
        };
        match ep {
            "cb" => {
                let (mut rest, mut bo) = (data, off);
                for i in 0..k {
                    let r = catch(|| T::from_bytes((rest, bo)));
                    let r = match r {
                        Ok(Ok((next, v))) => {
                            (rest, bo) = next;
                            Ok(Ok(v))
                        }
                        Ok(Err(e)) => Ok(Err(e)),
                        Err(m) => Err(m),
                    };
                    let n = 8 * data.len().wrapping_sub(rest.len()) + bo;
                    if !put(i, &r, n, 0) {
                        break;
                    }
                }
            }
            "cr" => {
                let mut src = Src::new(data, Sched::Full);
                for i in 0..k {
                    let mut n = 0;
                    let r = catch(|| T::from_reader((&mut src, if i == 0 { off } else { 0 })).map(|(m, v)| { n = m; v }));
                    if !put(i, &r, n, src.pos as usize) {
                        break;
                    }
                }
            }
            _ => {
                let mut src = Src::new(data, Sched::Full);
                let mut rd = Reader::new(&mut src);
                #[cfg(feature = "bits")]
                let _ = rd.skip_bits(off, deku::ctx::Order::Msb0);
                for i in 0..k {
                    let r = catch(|| T::from_reader_with_ctx(&mut rd, ()));
                    let n = rd.bits_read;
                    if !put(i, &r, n, 0) {
                        break;
                    }
                }
            }
        }
        o.push(']');
        o
    }
    fn chain_write(&self, seeds: &[u64]) -> (String, String, Option<Vec<u8>>) {
        let vs: Vec<T> = seeds.iter().map(|s| T::gen(&mut Rng::new(*s), ANY)).collect();
        let (mut trees, mut o) = (String::from("["), String::from("{"));
        for (i, v) in vs.iter().enumerate() {
            if i > 0 {
                trees.push(',');
            }
            v.tree(&mut trees);
        }
        trees.push(']');
        let mut sink = Sink::new(Sched::Full);
        let (mut n, mut at) = (0, 0);
        let r = catch(|| {
            let mut w = Writer::new(&mut sink);
            for v in &vs {
                at += 1;
                v.to_writer(&mut w, ())?;
            }
            w.finalize()?;
            n = w.bits_written;
            Ok(())
        });
        let ok = status(&r, &mut o);
        let _ = write!(o, ",\"n\":{n},\"at\":{at}");
        bytes_part(&mut o, &sink.data);
        o.push('}');
        (trees, o, if ok { Some(sink.data) } else { None })
    }
}

fn bytes_part(o: &mut String, b: &[u8]) {
    o.push_str(",\"b\":");
    put_bytes(o, b);
}

impl<T: Ty> Val for V<T> {
    fn tree(&self) -> String {
        let mut o = String::new();
        self.v.tree(&mut o);
        o
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        #[cfg(feature = "alloc")]
        return catch(|| self.v.to_bytes()).ok()?.ok();
        #[cfg(not(feature = "alloc"))]
        {
            let mut sink = Sink::new(Sched::Full);
            let r = catch(|| {
                let mut w = Writer::new(&mut sink);
                self.v.to_writer(&mut w, ())?;
                w.finalize()
            });
            r.ok()?.ok()?;
            Some(sink.data)
        }
    }
    fn same_as_decoded(&self, data: &[u8]) -> Option<bool> {
        let mut src = Src::new(data, Sched::Full);
        let v = catch(|| T::from_reader((&mut src, 0))).ok()?.ok()?.1;
        Some(v == self.v)
    }
    fn id(&self) -> Option<String> {
        let f = self.id?;
        let mut o = String::from("{");
        let r = catch(|| f(&self.v));
        if status(&r, &mut o) {
            let _ = write!(o, ",\"v\":{}", r.unwrap().unwrap());
        }
        o.push('}');
        Some(o)
    }
    fn update(&mut self) -> Option<String> {
        let f = self.update?;
        let mut o = String::from("{");
        let r = catch(|| f(&mut self.v));
        status(&r, &mut o);
        value_part(&mut o, &self.v);
        o.push('}');
        Some(o)
    }
    fn write(&self, ep: &str, slice: usize, env: Env) -> String {
        let mut o = format!("{{\"ep\":\"{ep}\",");
        match ep {
            #[cfg(feature = "alloc")]
            "tb" => {
                let r = catch(|| self.v.to_bytes());
                if status(&r, &mut o) {
                    bytes_part(&mut o, &r.unwrap().unwrap());
                }
            }
            #[cfg(all(feature = "alloc", feature = "bits"))]
            "ti" => {
                let r = catch(|| self.v.to_bits());
                if status(&r, &mut o) {
                    o.push_str(",\"bits\":");
                    put_bits(&mut o, r.unwrap().unwrap().iter().by_vals());
                }
            }
            #[cfg(feature = "alloc")]
            "vv" => {
                let r = catch(|| (self.to_vec)(self.v.clone()));
                if status(&r, &mut o) {
                    bytes_part(&mut o, &r.unwrap().unwrap());
                }
            }
            #[cfg(all(feature = "alloc", feature = "bits"))]
            "vb" => {
                let r = catch(|| (self.to_bitvec)(self.v.clone()));
                if status(&r, &mut o) {
                    o.push_str(",\"bits\":");
                    put_bits(&mut o, r.unwrap().unwrap().iter().by_vals());
                }
            }
            "sl" => {
                // 0xA5 marks bytes that were not written
                let mut buf = vec![0xA5u8; slice];
                let r = catch(|| self.v.to_slice(&mut buf));
                let n = if let Ok(Ok(n)) = &r { *n } else { 0 };
                if status(&r, &mut o) {
                    let clean = buf[n.min(slice)..].iter().all(|x| *x == 0xA5);
                    let _ = write!(o, ",\"n\":{},\"cl\":{}", n, clean as u8);
                    bytes_part(&mut o, &buf[..n.min(slice)]);
                }
                let _ = write!(o, ",\"k\":{slice}");
            }
            "tw" if !env.noseek => {
                let mut sink = env.sink();
                let mut n = 0;
                let r = catch(|| {
                    let mut w = Writer::new(&mut sink);
                    self.v.to_writer(&mut w, ())?;
                    w.finalize()?;
                    n = w.bits_written;
                    Ok(())
                });
                let _ = status(&r, &mut o);
                let _ = write!(o, ",\"n\":{n},\"hit\":{}", (sink.faults_hit > 0) as u8);
                bytes_part(&mut o, &sink.data);
            }
            "tw" => {
                let mut sink = deku::noseek::NoSeek::new(env.sink());
                let mut n = 0;
                let r = catch(|| {
                    let mut w = Writer::new(&mut sink);
                    self.v.to_writer(&mut w, ())?;
                    w.finalize()?;
                    n = w.bits_written;
                    Ok(())
                });
                let _ = status(&r, &mut o);
                let _ = write!(o, ",\"n\":{n},\"hit\":{}", (sink.get_ref().faults_hit > 0) as u8);
                bytes_part(&mut o, &sink.get_ref().data);
            }
            "tp" => {
                // a writer positioned inside or after what is already there
                let (at, slice) = (slice & 0xff, (slice & 0xff) + (slice >> 8));
                let mut sink = env.sink();
                let pre = vec![0x5Au8; slice];
                let r = catch(|| {
                    use deku::no_std_io::Write as _;
                    sink.write_all(&pre).unwrap();
                    sink.pos = at as u64;
                    let mut w = Writer::new(&mut sink);
                    self.v.to_writer(&mut w, ())?;
                    w.finalize()?;
                    Ok(())
                });
                let _ = status(&r, &mut o);
                let _ = write!(o, ",\"k\":{slice},\"p\":{at}");
                bytes_part(&mut o, &sink.data);
            }
            _ => unreachable!(),
        }
        o.push('}');
        o
    }
}

/// the conversions of a definition that only some configurations have
#[cfg(feature = "alloc")]
pub type ToVec<T> = fn(T) -> Result<Vec<u8>, DekuError>;
#[cfg(not(feature = "alloc"))]
pub type ToVec<T> = core::marker::PhantomData<fn(T)>;
#[cfg(all(feature = "alloc", feature = "bits"))]
pub type ToBits<T> = fn(T) -> Result<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>, DekuError>;
#[cfg(not(all(feature = "alloc", feature = "bits")))]
pub type ToBits<T> = core::marker::PhantomData<fn(T)>;

#[cfg(feature = "alloc")]
#[macro_export]
macro_rules! to_vec { () => { |v| Vec::<u8>::try_from(v) } }
#[cfg(not(feature = "alloc"))]
#[macro_export]
macro_rules! to_vec { () => { core::marker::PhantomData } }
#[cfg(all(feature = "alloc", feature = "bits"))]
#[macro_export]
macro_rules! to_bitvec { () => { |v| deku::bitvec::BitVec::<u8, deku::bitvec::Msb0>::try_from(v) } }
#[cfg(not(all(feature = "alloc", feature = "bits")))]
#[macro_export]
macro_rules! to_bitvec { () => { core::marker::PhantomData } }

#[macro_export]
macro_rules! op {
    ($t:ty, $name:expr $(, $k:ident : $v:expr)*) => {{
        #[allow(unused_mut)]
        let mut o: $crate::Op<$t> = $crate::Op {
            name: $name, size: None, id: None, update: None, to_vec: $crate::to_vec!(), to_bitvec: $crate::to_bitvec!(),
        };
        $( o.$k = Some($v); )*
        Box::new(o) as Box<dyn $crate::Ops>
    }};
}
