//! Reader, Writer and the primitive codecs called directly: operation
//! sequences chosen by the specification (or seeded), and single integers in
//! every context shape.
//!   {"op":"o","src":[..],"ops":[[kind,n,order],..],"gs":[{"flt":k,"runs":[{"env":..,"obs":[..]}]}]}
//!   {"op":"p","ops":[[kind,n,order,[bits]],..],"gs":[..]}
//!   {"op":"c","t","k","w","sg","sh","sz","bs","en","ord","a","src","rd":{..},"wr":[{"v",..}]}
use crate::guard::catch;
use crate::run::Trace;
use crate::*;
use deku::ctx::{BitSize, ByteSize, Endian, Limit, Order};
use deku::no_std_io::{ErrorKind, Seek, SeekFrom};
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use std::fmt::Write as _;

pub fn order(s: &str) -> Order {
    if s == "lsb" { Order::Lsb0 } else { Order::Msb0 }
}
fn endian(s: &str) -> Endian {
    if s == "big" { Endian::Big } else { Endian::Little }
}
/// to, by, from the end
const SEEKS: [char; 3] = ['k', 'j', 'z'];
fn oname(o: Order) -> &'static str {
    if o == Order::Lsb0 { "lsb" } else { "msb" }
}

type Bv = deku::bitvec::BitVec<u8, deku::bitvec::Msb0>;

// ------------------------------------------------------------------ reader

#[derive(Clone)]
pub struct ROp {
    pub k: char,
    pub n: i64,
    pub ord: Order,
}

/// the kind of error a fault at position k is
fn kind_at(k: usize) -> ErrorKind {
    crate::run::KINDS[k % crate::run::KINDS.len()]
}

fn read_ops(data: &[u8], ops: &[ROp], sched: Sched, fault: usize, once: bool, noseek: bool) -> String {
    let mut src = Src::new(data, sched);
    src.fault = fault;
    src.once = once;
    src.kind = kind_at(fault);
    if noseek {
        let mut s = deku::noseek::NoSeek::new(&mut src);
        let r = run_rops(&mut Reader::new(&mut s), ops);
        return format!("{{\"obs\":{r},\"hit\":{}}}", (src.faults_hit > 0) as u8);
    }
    let r = run_rops(&mut Reader::new(&mut src), ops);
    format!("{{\"obs\":{r},\"hit\":{}}}", (src.faults_hit > 0) as u8)
}

fn run_rops<R: deku::no_std_io::Read + Seek>(rd: &mut Reader<R>, ops: &[ROp]) -> String {
    let mut o = String::from("[");
    for (i, p) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push('{');
        let n = p.n.max(0) as usize;
        // (bits, bytes, flag)
        let mut bits: Option<Vec<bool>> = None;
        let mut bytes: Option<Vec<u8>> = None;
        let mut flag = 0;
        let r = catch(|| -> Result<(), DekuError> {
            match p.k {
                'b' => {
                    let bv = rd.read_bits(n, p.ord)?;
                    bits = Some(bv.map_or(vec![], |b| b.iter().by_vals().collect()));
                }
                'y' => {
                    let mut buf = vec![0u8; n];
                    rd.read_bytes(n, &mut buf, p.ord)?;
                    bytes = Some(buf);
                }
                'c' => {
                    macro_rules! by { ($($k:literal)*) => { match n { $( $k => {
                        let mut buf = [0u8; $k];
                        if n == 2 {
                            rd.read_bytes_const_into::<$k>(&mut buf, p.ord)?;
                        } else {
                            rd.read_bytes_const::<$k>(&mut buf, p.ord)?;
                        }
                        bytes = Some(buf.to_vec());
                    } )* _ => unreachable!() } } }
                    by!(1 2 3 4 8)
                }
                's' => rd.skip_bits(n, p.ord)?,
                'e' => flag = rd.end() as u8,
                'i' => {
                    let v = if n > 64 {
                        u128::from_reader_with_ctx(rd, (Endian::Big, BitSize(n)))?
                    } else {
                        u64::from_reader_with_ctx(rd, (Endian::Big, BitSize(n)))? as u128
                    };
                    bits = Some((0..n).map(|i| (v >> (n - 1 - i)) & 1 == 1).collect());
                }
                'v' => {
                    // a limit alone is a context of its own
                    let v = if n % 2 == 1 {
                        Vec::<u8>::from_reader_with_ctx(rd, Limit::from(n))?
                    } else {
                        Vec::<u8>::from_reader_with_ctx(rd, (Limit::from(n), ()))?
                    };
                    bytes = Some(v);
                }
                'k' => {
                    rd.seek(SeekFrom::Start(n as u64)).map_err(|e| DekuError::Io(e.kind()))?;
                }
                'j' => {
                    rd.seek(SeekFrom::Current(p.n)).map_err(|e| DekuError::Io(e.kind()))?;
                }
                'z' => {
                    rd.seek(SeekFrom::End(p.n)).map_err(|e| DekuError::Io(e.kind()))?;
                }
                _ => unreachable!(),
            }
            Ok(())
        });
        let ok = status(&r, &mut o);
        if let Some(b) = bits {
            o.push_str(",\"bits\":");
            put_bits(&mut o, b.into_iter());
        }
        if let Some(b) = bytes {
            o.push_str(",\"b\":");
            put_bytes(&mut o, &b);
        }
        let _ = write!(o, ",\"e\":{flag},\"n\":{},\"rs\":", rd.bits_read.min(1 << 30));
        put_bits(&mut o, rd.rest().into_iter());
        // where the source itself stands
        let at = if !ok { -1 } else { rd.as_mut().seek(SeekFrom::Current(0)).map_or(-1, |p| p.min(1 << 30) as i64) };
        let _ = write!(o, ",\"p\":{at}}}");
        if !ok {
            break;
        }
    }
    o.push(']');
    o
}

fn groups(o: &mut String, gs: Vec<(usize, Vec<(String, String)>)>) {
    o.push_str(",\"gs\":[");
    for (i, (flt, runs)) in gs.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"flt\":{flt},\"runs\":[");
        let mut seen: Vec<String> = vec![];
        for (obs, env) in runs {
            if seen.contains(&obs) {
                continue;
            }
            if !seen.is_empty() {
                o.push(',');
            }
            let _ = write!(o, "{},\"env\":\"{env}\"}}", &obs[..obs.len() - 1]);
            seen.push(obs);
        }
        o.push_str("]}");
    }
    o.push(']');
}

pub fn reader_case(t: &mut Trace, data: &[u8], ops: &[ROp], modes: &[String], salt: u64) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    let mut head = String::from("\"op\":\"o\",\"src\":");
    put_bytes(&mut head, data);
    head.push_str(",\"ops\":[");
    for (i, p) in ops.iter().enumerate() {
        let _ = write!(head, "{}[\"{}\",{},\"{}\"]", if i > 0 { "," } else { "" }, p.k, p.n, oname(p.ord));
    }
    head.push(']');
    t.case(&head, || {
        let mut o = String::new();
        let mut gs = vec![];
        let mut runs = vec![(read_ops(data, ops, Sched::Full, NO_FAULT, false, false), "Full".to_string())];
        if has("sched") {
            for s in [Sched::Chunk(1), Sched::Chunk(3), Sched::Intr(1), Sched::Rand(salt)] {
                runs.push((read_ops(data, ops, s, NO_FAULT, false, false), format!("{s:?}")));
            }
        }
        if has("noseek") && ops.iter().all(|p| !SEEKS.contains(&p.k)) {
            runs.push((read_ops(data, ops, Sched::Rand(salt), NO_FAULT, false, true), "noseek".into()));
        }
        gs.push((NO_FAULT, runs));
        if has("fault") {
            for k in 0..=data.len() {
                let runs = [(Sched::Full, false), (Sched::Rand(salt), false)]
                    .into_iter()
                    .map(|(s, once)| {
                        let r = read_ops(data, ops, s, k, once, false);
                        (r.replacen('{', &format!("{{\"fk\":\"{:?}\",", kind_at(k)), 1), format!("{s:?}"))
                    })
                    .collect();
                gs.push((k, runs));
            }
        }
        groups(&mut o, gs);
        o
    });
}

// ------------------------------------------------------------------ writer

#[derive(Clone)]
pub struct WOp {
    pub k: char,
    pub n: i64,
    pub ord: Order,
    /// in the order they go into the stream
    pub bits: Vec<bool>,
}

fn write_ops(ops: &[WOp], sched: Sched, fault: usize, zero: bool, noseek: bool) -> String {
    let mut sink = Sink::new(sched);
    sink.fault = fault;
    sink.zero = zero;
    sink.kind = kind_at(fault);
    let r = if noseek {
        let mut s = deku::noseek::NoSeek::new(&mut sink);
        run_wops(&mut Writer::new(&mut s), ops)
    } else {
        run_wops(&mut Writer::new(&mut sink), ops)
    };
    let mut o = format!("{{\"obs\":{r},\"hit\":{},\"b\":", (sink.faults_hit > 0) as u8);
    put_bytes(&mut o, &sink.data);
    o.push('}');
    o
}

fn run_wops<W: deku::no_std_io::Write + Seek>(w: &mut Writer<W>, ops: &[WOp]) -> String {
    let mut o = String::from("[");
    for (i, p) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push('{');
        // the API takes bits most significant first
        let mut api: Vec<bool> = p.bits.clone();
        if p.ord == Order::Lsb0 {
            api.reverse();
        }
        let bv: Bv = api.iter().collect();
        let r = catch(|| -> Result<(), DekuError> {
            match p.k {
                'b' => w.write_bits_order(&bv, p.ord),
                'm' => w.write_bits(&bv),
                'y' => w.write_bytes(&p.bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect::<Vec<_>>()),
                'i' if api.len() > 64 => api.iter().fold(0u128, |a, b| a << 1 | *b as u128).to_writer(w, (Endian::Big, BitSize(api.len()))),
                'i' => api.iter().fold(0u64, |a, b| a << 1 | *b as u64).to_writer(w, (Endian::Big, BitSize(api.len()))),
                'f' => w.finalize(),
                'k' => w.seek(SeekFrom::Start(p.n as u64)).map(|_| ()).map_err(|e| DekuError::Io(e.kind())),
                'j' => w.seek(SeekFrom::Current(p.n)).map(|_| ()).map_err(|e| DekuError::Io(e.kind())),
                'z' => w.seek(SeekFrom::End(p.n)).map(|_| ()).map_err(|e| DekuError::Io(e.kind())),
                _ => unreachable!(),
            }
        });
        let ok = status(&r, &mut o);
        let _ = write!(o, ",\"n\":{},\"rs\":", w.bits_written.min(1 << 30));
        put_bits(&mut o, w.rest().into_iter());
        o.push('}');
        if !ok {
            break;
        }
    }
    o.push(']');
    o
}

pub fn writer_case(t: &mut Trace, ops: &[WOp], modes: &[String], salt: u64) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    let mut ops = ops.to_vec();
    if ops.last().is_none_or(|p| p.k != 'f') {
        ops.push(WOp { k: 'f', n: 0, ord: Order::Msb0, bits: vec![] });
    }
    let mut head = String::from("\"op\":\"p\",\"ops\":[");
    for (i, p) in ops.iter().enumerate() {
        let _ = write!(head, "{}[\"{}\",{},\"{}\",", if i > 0 { "," } else { "" }, p.k, p.n, oname(p.ord));
        put_bits(&mut head, p.bits.iter().copied());
        head.push(']');
    }
    head.push(']');
    t.case(&head, || {
        let mut o = String::new();
        let mut gs = vec![];
        let mut runs = vec![(write_ops(&ops, Sched::Full, NO_FAULT, false, false), "Full".to_string())];
        if has("sched") {
            for s in [Sched::Chunk(1), Sched::Chunk(3), Sched::Intr(1), Sched::Rand(salt)] {
                runs.push((write_ops(&ops, s, NO_FAULT, false, false), format!("{s:?}")));
            }
        }
        if has("noseek") && ops.iter().all(|p| !SEEKS.contains(&p.k)) {
            runs.push((write_ops(&ops, Sched::Rand(salt), NO_FAULT, false, true), "noseek".into()));
        }
        gs.push((NO_FAULT, runs));
        if has("fault") {
            let total = ops.iter().map(|p| p.bits.len()).sum::<usize>().div_ceil(8);
            for k in 0..=total {
                let runs = [(Sched::Full, false), (Sched::Rand(salt), false), (Sched::Full, true)]
                    .into_iter()
                    .map(|(s, zero)| {
                        let r = write_ops(&ops, s, k, zero, false);
                        (r.replacen('{', &format!("{{\"fk\":\"{}\",", if zero { "WriteZero".into() } else { format!("{:?}", kind_at(k)) }), 1), format!("{s:?}"))
                    })
                    .collect();
                gs.push((k, runs));
            }
        }
        groups(&mut o, gs);
        o
    });
}

// ------------------------------------------------------------------- codec

/// Context shapes: "ebo" (Endian, BitSize, Order), "eb", "eyo" (bytes), "ey", "eo", "e", "bo", "b", "y", "o", "".
pub struct Cx<'a> {
    pub sh: &'a str,
    pub sz: usize,
    pub en: Endian,
    pub ord: Order,
}

pub trait Codec {
    fn name(&self) -> &'static str;
    /// kind, bits, signed
    fn kind(&self) -> (&'static str, usize, u8);
    fn has(&self, sh: &str) -> bool;
    fn read(&self, data: &[u8], a: usize, cx: &Cx) -> String;
    fn write(&self, from: Value, a: usize, cx: &Cx) -> Option<String>;
}

struct C<T>(std::marker::PhantomData<T>);

fn bytes_out<T: Tree>(r: &Result<Result<T, DekuError>, String>, n: usize, rest: Vec<bool>) -> String {
    let mut o = String::from("{");
    if status(r, &mut o) {
        o.push_str(",\"v\":");
        if let Ok(Ok(v)) = r {
            v.tree(&mut o);
        }
    }
    let _ = write!(o, ",\"n\":{},\"rs\":", n.min(1 << 30));
    put_bits(&mut o, rest.into_iter());
    o.push('}');
    o
}

macro_rules! codec {
    ($t:ty, $name:literal, $kind:literal, $w:expr, $sg:literal, [$($sh:literal: $ctx:expr),*]) => {
        impl Codec for C<$t> {
            fn name(&self) -> &'static str { $name }
            fn kind(&self) -> (&'static str, usize, u8) { ($kind, $w, $sg) }
            fn has(&self, sh: &str) -> bool { [$($sh),*].contains(&sh) }
            fn read(&self, data: &[u8], a: usize, cx: &Cx) -> String {
                let mut src = Src::new(data, Sched::Full);
                let mut rd = Reader::new(&mut src);
                let r = catch(|| -> Result<$t, DekuError> {
                    if a > 0 { rd.read_bits(a, cx.ord)?; }
                    match cx.sh {
                        $( $sh => { let f: fn(&Cx) -> _ = $ctx; <$t>::from_reader_with_ctx(&mut rd, f(cx)) } )*
                        _ => unreachable!(),
                    }
                });
                let n = rd.bits_read;
                bytes_out(&r, n, rd.rest())
            }
            fn write(&self, from: Value, a: usize, cx: &Cx) -> Option<String> {
                let v: $t = match from {
                    Value::Gen(s) => <$t>::gen(&mut Rng::new(s), Hint::bits(cx.sz.min($w) as u32)),
                    Value::Decode(d, off) => {
                        let mut src = Src::new(d, Sched::Full);
                        let mut rd = Reader::new(&mut src);
                        if off > 0 { rd.read_bits(off, cx.ord).ok()?; }
                        match cx.sh {
                            $( $sh => { let f: fn(&Cx) -> _ = $ctx; catch(|| <$t>::from_reader_with_ctx(&mut rd, f(cx))).ok()?.ok()? } )*
                            _ => unreachable!(),
                        }
                    }
                };
                let mut sink = Sink::new(Sched::Full);
                let mut o = String::from("{\"v\":");
                v.tree(&mut o);
                o.push(',');
                let mut w = Writer::new(&mut sink);
                let lead: Bv = std::iter::repeat_n(true, a).collect();
                let r = catch(|| -> Result<(), DekuError> {
                    w.write_bits_order(&lead, cx.ord)?;
                    match cx.sh {
                        $( $sh => { let f: fn(&Cx) -> _ = $ctx; v.to_writer(&mut w, f(cx)) } )*
                        _ => unreachable!(),
                    }
                });
                status(&r, &mut o);
                let n = w.bits_written;
                let rest = w.rest();
                let _ = catch(|| w.finalize());
                let _ = write!(o, ",\"n\":{},\"rs\":", n.min(1 << 30));
                put_bits(&mut o, rest.into_iter());
                o.push_str(",\"b\":");
                put_bytes(&mut o, &sink.data);
                o.push('}');
                Some(o)
            }
        }
    };
}
macro_rules! full { ($($t:ty, $name:literal, $kind:literal, $w:expr, $sg:literal;)*) => {$(
    codec!($t, $name, $kind, $w, $sg, [
        "ebo": |c| (c.en, BitSize(c.sz), c.ord), "eb": |c| (c.en, BitSize(c.sz)),
        "eyo": |c| (c.en, ByteSize(c.sz), c.ord), "ey": |c| (c.en, ByteSize(c.sz)),
        "eo": |c| (c.en, c.ord), "e": |c| c.en, "bo": |c| (BitSize(c.sz), c.ord),
        "b": |c| BitSize(c.sz), "y": |c| ByteSize(c.sz), "o": |c| c.ord, "": |_| ()]);
)*}}
full! {
    u8, "u8", "int", 8, 0; u16, "u16", "int", 16, 0; u32, "u32", "int", 32, 0; u64, "u64", "int", 64, 0;
    u128, "u128", "int", 128, 0; usize, "usize", "int", 64, 0;
    i8, "i8", "int", 8, 1; i16, "i16", "int", 16, 1; i32, "i32", "int", 32, 1; i64, "i64", "int", 64, 1;
    i128, "i128", "int", 128, 1; isize, "isize", "int", 64, 1;
    f32, "f32", "int", 32, 0; f64, "f64", "int", 64, 0; bool, "bool", "bool", 8, 0;
    std::net::Ipv4Addr, "ip4", "int", 32, 0; std::net::Ipv6Addr, "ip6", "int", 128, 0;
}
macro_rules! nz { ($($t:ident, $w:expr, $sg:literal;)*) => {$(
    codec!(std::num::$t, "nz", "nz", $w, $sg, [
        "ebo": |c| (c.en, BitSize(c.sz), c.ord), "eb": |c| (c.en, BitSize(c.sz)),
        "eyo": |c| (c.en, ByteSize(c.sz), c.ord), "ey": |c| (c.en, ByteSize(c.sz)),
        "e": |c| c.en, "": |_| ()]);
)*}}
nz! { NonZeroU8, 8, 0; NonZeroU16, 16, 0; NonZeroU32, 32, 0; NonZeroU64, 64, 0; NonZeroU128, 128, 0; NonZeroUsize, 64, 0;
      NonZeroI8, 8, 1; NonZeroI16, 16, 1; NonZeroI32, 32, 1; NonZeroI64, 64, 1; NonZeroI128, 128, 1; NonZeroIsize, 64, 1; }

fn codecs() -> Vec<(&'static str, Box<dyn Codec>)> {
    macro_rules! all { ($($t:ty, $n:literal;)*) => { vec![$(($n, Box::new(C::<$t>(std::marker::PhantomData)) as Box<dyn Codec>)),*] } }
    use std::num::*;
    all! { u8, "u8"; u16, "u16"; u32, "u32"; u64, "u64"; u128, "u128"; usize, "usize";
           i8, "i8"; i16, "i16"; i32, "i32"; i64, "i64"; i128, "i128"; isize, "isize";
           f32, "f32"; f64, "f64"; bool, "bool"; std::net::Ipv4Addr, "ip4"; std::net::Ipv6Addr, "ip6";
           NonZeroU8, "nzu8"; NonZeroU16, "nzu16"; NonZeroU32, "nzu32"; NonZeroU64, "nzu64"; NonZeroU128, "nzu128"; NonZeroUsize, "nzusize";
           NonZeroI8, "nzi8"; NonZeroI16, "nzi16"; NonZeroI32, "nzi32"; NonZeroI64, "nzi64"; NonZeroI128, "nzi128"; NonZeroIsize, "nzisize"; }
}

#[allow(clippy::too_many_arguments)]
fn codec_case(t: &mut Trace, name: &str, c: &dyn Codec, sh: &str, sz: usize, en: &str, ord: &str, a: usize, modes: &[String], seed: u64) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    let (k, w, sg) = c.kind();
    let bits = if sh.contains('b') { sz } else if sh.contains('y') { sz.saturating_mul(8) } else { w };
    let mut r = Rng::new(seed);
    let full = (a + bits.min(w)).div_ceil(8);
    let len = match r.below(6) {
        0 => r.below(full + 1),
        1 => full + 1,
        _ => full,
    };
    let style = r.below(5);
    let data: Vec<u8> = (0..len)
        .map(|i| match style {
            0 => 0,
            1 => 0xff,
            2 => [0x80, 0x01, 0x7f, 0xfe][(i + seed as usize) % 4],
            _ => r.next() as u8,
        })
        .collect();
    let b = |x: usize| x.min(1 << 30);
    let mut head = format!(
        "\"op\":\"c\",\"t\":\"{name}\",\"k\":\"{k}\",\"w\":{w},\"sg\":{sg},\"sh\":\"{sh}\",\"sz\":{},\"bs\":{},\"en\":\"{}\",\"ord\":\"{}\",\"a\":{a},\"src\":",
        if sh.contains('b') || sh.contains('y') { b(bits) as i64 } else { -1 },
        sh.contains('y') as u8,
        if sh.contains('e') { en } else { "little" },
        if sh.contains('o') { ord } else { "msb" },
    );
    put_bytes(&mut head, &data);
    let cx = Cx { sh, sz, en: endian(en), ord: if sh.contains('o') { order(ord) } else { Order::Msb0 } };
    t.case(&head, || {
        let mut o = String::new();
        if has("read") {
            let _ = write!(o, ",\"rd\":{}", c.read(&data, a, &cx));
        }
        o.push_str(",\"wr\":[");
        if has("write") {
            let ws: Vec<String> = [Value::Decode(&data, a), Value::Gen(r.next()), Value::Gen(r.next())]
                .into_iter()
                .filter_map(|v| c.write(v, a, &cx))
                .collect();
            o.push_str(&ws.join(","));
        }
        o.push(']');
        o
    });
}

// ---------------------------------------------------------------- dispatch

/// "OPR 2,161,197,b,5,msb,.." / "OPW b,msb,3,1,0,1,.." / "OPC u8,ebo,5,big,msb"
pub fn behaviour(t: &mut Trace, line: &str, modes: &[String], seed: u64) {
    let (kind, rest) = line.split_once(' ').unwrap();
    let tok: Vec<&str> = rest.split(',').collect();
    let salt = crate::run::hash(line) % 1000;
    let num = |s: &str| s.parse::<i64>().unwrap_or_else(|_| panic!("{line}"));
    match kind {
        "OPR" => {
            let n = num(tok[0]) as usize;
            let data: Vec<u8> = tok[1..=n].iter().map(|s| num(s) as u8).collect();
            let ops: Vec<ROp> = tok[n + 1..]
                .chunks(3)
                .map(|c| ROp { k: c[0].chars().next().unwrap(), n: num(c[1]), ord: order(c[2]) })
                .collect();
            reader_case(t, &data, &ops, modes, salt);
        }
        "OPW" => {
            let mut ops = vec![];
            let mut i = 0;
            while i < tok.len() {
                let (k, ord, n) = (tok[i].chars().next().unwrap(), order(tok[i + 1]), num(tok[i + 2]));
                i += 3;
                let nb = if SEEKS.contains(&k) || k == 'f' { 0 } else { n as usize };
                let bits = tok[i..i + nb].iter().map(|s| *s == "1").collect();
                i += nb;
                ops.push(WOp { k, n, ord, bits });
            }
            writer_case(t, &ops, modes, salt);
        }
        "OPC" => {
            let cs = codecs();
            let (name, sh, sz, en, ord) = (tok[0], if tok[1] == "none" { "" } else { tok[1] }, tok[2], tok[3], tok[4]);
            let Some((_, c)) = cs.iter().find(|c| c.0 == name) else { panic!("{line}") };
            if !c.has(sh) {
                return;
            }
            let sz = if sz == "huge" { usize::MAX / 4 } else { num(sz) as usize };
            let deep = modes.iter().any(|m| m == "deep");
            let als: Vec<usize> = if deep { (0..8).collect() } else { vec![0, 1 + (salt as usize + seed as usize) % 7] };
            for a in als {
                for rep in 0..if deep { 3 } else { 1 } {
                    codec_case(t, name, &**c, sh, sz, en, ord, a, modes, crate::run::hash(line) ^ seed << 20 ^ (a as u64) << 8 ^ rep);
                }
            }
        }
        "OPL" => {
            let data: Vec<u8> = tok[1..].iter().map(|s| num(s) as u8).collect();
            crate::own::own_case(t, tok[0], &data);
        }
        "OPN" => {
            let len = num(tok[1]);
            let data: Vec<u8> = if tok[0] == "r" { (0..len).map(|i| (i * 11 + 65) as u8).collect() } else { vec![] };
            let ops: Vec<(char, i64)> = tok[2..].chunks(2).map(|c| (c[0].chars().next().unwrap(), num(c[1]))).collect();
            crate::wrap::wrap_case(t, tok[0], &data, &ops, salt);
        }
        _ => panic!("{line}"),
    }
}

/// 48 and more bits
fn long(r: &mut Rng) -> usize {
    let top = if r.chance(1, 2) { 16 } else { 80 };
    48 + r.below(top)
}

pub fn seeded(t: &mut Trace, n: usize, seed: u64, modes: &[String]) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    if has("wrapper") {
        crate::wrap::seeded(t, n, seed);
    }
    if has("reader") {
        for i in 0..n {
            let mut r = Rng::new(seed.wrapping_mul(7919) ^ (i as u64) << 20);
            // every third case moves long integers and runs of bits
            let wide = i % 3 == 2;
            let len = if wide { 8 + r.below(40) } else { r.below(24) };
            let data: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
            // mostly one order
            let one = r.chance(2, 3).then(|| if r.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 });
            let ops: Vec<ROp> = (0..1 + r.below(14))
                .map(|_| {
                    let ord = one.unwrap_or(if r.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 });
                    match if wide && r.chance(1, 3) { 9 } else { r.below(12) } {
                        0..=3 => ROp { k: 'b', n: if r.chance(1, 4) { if wide { 50 + r.below(80) } else { r.below(65) } } else { r.below(12) } as i64, ord },
                        4 => ROp { k: 'y', n: r.below(4) as i64, ord },
                        5 => ROp { k: 'c', n: [1, 2, 3, 4, 8][r.below(5)], ord },
                        6 | 7 => ROp { k: 's', n: r.below(20) as i64, ord },
                        8 => ROp { k: 'e', n: 0, ord },
                        9 if ord == Order::Msb0 => ROp { k: 'i', n: 1 + if wide { long(&mut r) } else if r.chance(1, 3) { r.below(64) } else { r.below(12) } as i64, ord },
                        10 if ord == Order::Msb0 => ROp { k: 'v', n: r.below(5) as i64, ord },
                        11 if r.chance(1, 3) => ROp { k: 'k', n: r.below(len + 1) as i64, ord },
                        11 if r.chance(1, 4) => ROp { k: 'z', n: r.below(4) as i64 - 2, ord },
                        11 if r.chance(1, 2) => ROp { k: 'j', n: r.below(4) as i64 - 1, ord },
                        _ => ROp { k: 'b', n: 1 + r.below(7) as i64, ord },
                    }
                })
                .collect();
            reader_case(t, &data, &ops, modes, i as u64);
        }
    }
    if has("writer") {
        for i in 0..n {
            let mut r = Rng::new(seed.wrapping_mul(104729) ^ (i as u64) << 20);
            let wide = i % 3 == 2;
            let mut pending = 0; // bits in the unfinished byte
            let mut last = if r.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 };
            let switch = r.chance(1, 2);
            let seeks = r.chance(1, 6);
            let mut ops = vec![];
            for _ in 0..1 + r.below(12) {
                if switch && pending == 0 && r.chance(1, 2) {
                    last = if last == Order::Msb0 { Order::Lsb0 } else { Order::Msb0 };
                }
                let k = match r.below(10) {
                    0 if last == Order::Msb0 => 'm',
                    1 if last == Order::Msb0 || pending == 0 => 'y',
                    2 | 3 if last == Order::Msb0 => 'i',
                    4 if r.chance(1, 4) => 'f',
                    5 if seeks => SEEKS[r.below(3)],
                    _ => 'b',
                };
                let n = match k {
                    'f' => 0,
                    'k' | 'j' | 'z' => r.below(5),
                    'y' => 8 * r.below(4),
                    'i' => 1 + if wide { long(&mut r) } else if r.chance(1, 3) { r.below(64) } else { r.below(12) },
                    _ if switch && pending > 0 && r.chance(1, 3) => 8 - pending,
                    _ => if r.chance(1, 4) { if wide { 50 + r.below(80) } else { r.below(65) } } else { r.below(12) },
                };
                let nb = if k == 'f' || SEEKS.contains(&k) { 0 } else { n };
                let fill = r.below(5);
                let bits = (0..nb).map(|_| match fill { 0 => true, 1 => false, _ => r.chance(1, 2) }).collect();
                pending = if nb == 0 && (k == 'f' || SEEKS.contains(&k)) { 0 } else { (pending + nb) % 8 };
                let n = if k == 'j' || k == 'z' { n as i64 - 2 } else { n as i64 };
                ops.push(WOp { k, n, ord: last, bits });
            }
            writer_case(t, &ops, modes, i as u64);
        }
    }
}
