//! The case loop: which inputs, values and environments a definition is put
//! through, and the trace that is written. One JSON object per line:
//!   {"op":"r", "ty", "src", "off", "gs":[{"len","flt","obs":[..]}]}   decoding
//!   {"op":"w", "ty", "v", "obs":[..], "dec", "from"}                   encoding
//!   {"op":"u", "ty", "v", "res", "b", "dec"}                           update()
//!   {"op":"q", "ty", "src", "p", "obs":[..]}                           decoding, one byte put through its values
//!   {"op":"k", "ty", "vs", "off", "src", "w", "cb", "cr", "cx"}        values one after the other
//!   {"op":"l"}, {"op":"m"}                                             ownership, see own.rs
//!   {"op":"z", "ty", "bits", "bytes"}                                  DekuSize
use crate::*;
use deku::no_std_io::ErrorKind;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};

pub struct Args {
    pub seed: u64,
    pub n: usize,
    pub modes: Vec<String>,
    pub out: String,
    pub behaviours: Option<String>,
    pub from: usize,
    pub only: Option<String>,
    pub replay: Option<String>,
}

pub fn args() -> Args {
    let mut a = Args { seed: 1, n: 20, modes: vec![], out: "/dev/stdout".into(), behaviours: None, from: 0, only: None, replay: None };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--seed" => a.seed = x.parse().unwrap(),
            "--n" => a.n = x.parse().unwrap(),
            "--modes" => a.modes = x.split(',').map(|s| s.to_string()).collect(),
            "--out" => a.out = x,
            "--behaviours" => a.behaviours = Some(x),
            "--from" => a.from = x.parse().unwrap(),
            "--only" => a.only = Some(x),
            "--replay" => a.replay = Some(x),
            _ => panic!("argument {}", v[i]),
        }
        i += 2;
    }
    a
}

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// The trace file. Case numbers below `from` are skipped (already recorded by
/// an earlier process that ended in the middle of a case).
pub struct Trace {
    file: std::io::BufWriter<std::fs::File>,
    cur: std::path::PathBuf,
    pub id: usize,
    from: usize,
}
impl Trace {
    pub fn open(a: &Args) -> Self {
        let file = std::fs::OpenOptions::new().create(true).append(true).open(&a.out).unwrap();
        Trace { file: std::io::BufWriter::new(file), cur: format!("{}.cur", a.out).into(), id: 0, from: a.from }
    }
    /// run one case; `head` describes it should the process not survive it
    pub fn case(&mut self, head: &str, f: impl FnOnce() -> String) {
        self.id += 1;
        if self.id <= self.from {
            return;
        }
        self.file.flush().unwrap();
        std::fs::write(&self.cur, format!("{{\"id\":{},{}}}", self.id, head)).unwrap();
        let body = f();
        writeln!(self.file, "{{\"id\":{},{}{}}}", self.id, head, body).unwrap();
    }
}
impl Drop for Trace {
    fn drop(&mut self) {
        let _ = self.file.flush();
        let _ = std::fs::remove_file(&self.cur);
    }
}

pub const KINDS: [ErrorKind; 10] = [
    ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::ConnectionAborted, ErrorKind::WriteZero, ErrorKind::InvalidInput,
];

/// which seek fails, and whether only that one
pub const SEEK_FAULTS: [(usize, bool); 5] = [(0, false), (0, true), (1, true), (2, true), (3, true)];

/// distinct observations with how many environments showed each
fn put_obs(o: &mut String, list: Vec<(String, String)>) {
    let mut seen: Vec<(String, String, usize)> = vec![];
    for (ob, env) in list {
        match seen.iter_mut().find(|s| s.0 == ob) {
            Some(s) => s.2 += 1,
            None => seen.push((ob, env, 1)),
        }
    }
    o.push('[');
    for (i, (ob, env, c)) in seen.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{},\"env\":\"{}\",\"c\":{}}}", &ob[..ob.len() - 1], env, c);
    }
    o.push(']');
}

/// `al` (peak allocation) is only kept where it is judged
fn strip_al(ob: String, keep: bool) -> String {
    if keep {
        return ob;
    }
    match (ob.find(",\"al\":"), ob.rfind('}')) {
        (Some(i), Some(end)) => {
            let rest = &ob[i + 6..end];
            let tail: String = rest.chars().skip_while(|c| c.is_ascii_digit()).collect();
            format!("{}{}}}", &ob[..i], tail)
        }
        _ => ob,
    }
}

pub fn read_case(t: &mut Trace, op: &dyn Ops, data: &[u8], off: usize, modes: &[String], salt: u64) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    let mut head = format!("\"op\":\"r\",\"ty\":\"{}\",\"off\":{off},\"src\":", op.name());
    put_bytes(&mut head, data);
    t.case(&head, || {
        let keep = has("alloc");
        let mut groups: Vec<(usize, usize, Vec<(String, String)>)> = vec![];
        let mut obs = vec![];
        let plain = Env::plain(data.len());
        let see = |ep: &str, e: Env, obs: &mut Vec<(String, String)>| {
            obs.push((strip_al(op.read(ep, data, off, e), keep), format!("{:?}{}", e.sched, if e.noseek { " noseek" } else { "" })));
        };
        see("fr", plain, &mut obs);
        if has("ep") {
            see("fb", plain, &mut obs);
            see("fx", plain, &mut obs);
            if off == 0 {
                see("tf", plain, &mut obs);
            }
        }
        if has("fb") {
            see("fb", plain, &mut obs);
        }
        if has("sched") {
            for s in [Sched::Chunk(1), Sched::Chunk(2), Sched::Chunk(3), Sched::Intr(1), Sched::Intr(5), Sched::Rand(salt), Sched::Rand(salt + 1)] {
                see("fr", Env { sched: s, ..plain }, &mut obs);
                see("fx", Env { sched: s, ..plain }, &mut obs);
            }
        }
        if has("noseek") {
            for s in [Sched::Full, Sched::Rand(salt + 2)] {
                see("fr", Env { sched: s, noseek: true, ..plain }, &mut obs);
            }
        }
        if has("unseekable") {
            for s in [Sched::Full, Sched::Rand(salt + 2)] {
                let o = op.read("fr", data, off, Env { sched: s, noseek: true, ..plain });
                obs.push((strip_al(o, keep).replacen("\"ep\":\"fr\"", "\"ep\":\"nr\"", 1), format!("{s:?}")));
            }
        }
        groups.push((data.len(), NO_FAULT, obs));
        let n = op.extent(data, off);
        if has("seekfail") {
            let mut obs = vec![];
            for (k, once) in SEEK_FAULTS {
                obs.push((op.read("fr", data, off, Env { seek_fault: k, once, ..plain }), format!("seek {k}{}", if once { " once" } else { "" })));
            }
            let obs = obs.into_iter().map(|(o, e)| (strip_al(o, keep).replacen("\"ep\":\"fr\"", "\"ep\":\"sf\",\"fk\":\"PermissionDenied\"", 1), e)).collect();
            groups.push((data.len(), NO_FAULT, obs));
        }
        if has("fault") {
            let top = data.len() + 1;
            let step = (top / 24).max(1);
            for k in (0..=top).step_by(step) {
                let mut obs = vec![];
                let kind = KINDS[(k + salt as usize) % KINDS.len()];
                for (s, once) in [(Sched::Full, false), (Sched::Chunk(1), true), (Sched::Rand(salt), false), (Sched::Full, true)] {
                    let e = Env { sched: s, fault: k, once, kind, ..plain };
                    let o = op.read("fr", data, off, e);
                    let o = strip_al(o, keep).replacen("\"ep\":\"fr\"", &format!("\"ep\":\"fr\",\"fk\":\"{kind:?}\""), 1);
                    obs.push((o, format!("{:?}{}", s, if once { " once" } else { "" })));
                }
                groups.push((data.len(), k, obs));
            }
        }
        if has("trunc") {
            if let Some(n) = n {
                let need = n.div_ceil(8).min(data.len());
                let step = (need / 24).max(1);
                for len in (0..need).step_by(step) {
                    let mut obs = vec![];
                    let e = Env::plain(len);
                    see("fr", e, &mut obs);
                    see("fb", e, &mut obs);
                    see("fr", Env { sched: Sched::Chunk(1), ..e }, &mut obs);
                    if off == 0 {
                        see("tf", e, &mut obs);
                    }
                    groups.push((len, NO_FAULT, obs));
                }
            }
        }
        let mut o = String::from(",\"gs\":[");
        for (i, (len, flt, obs)) in groups.into_iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"len\":{len},\"flt\":{flt},\"obs\":");
            put_obs(&mut o, obs);
            o.push('}');
        }
        o.push(']');
        o
    });
}

pub fn write_case(t: &mut Trace, op: &dyn Ops, from: Value, modes: &[String], salt: u64) {
    let has = |m: &str| modes.iter().any(|x| x == m);
    let Some(v) = op.value(from) else { return };
    let mut head = format!("\"op\":\"w\",\"ty\":\"{}\",\"v\":{}", op.name(), v.tree());
    match from {
        Value::Decode(d, off) => {
            let _ = write!(head, ",\"from\":{{\"off\":{off},\"n\":{},\"src\":", op.extent(d, off).unwrap_or(0).min(1 << 30));
            put_bytes(&mut head, d);
            head.push('}');
        }
        Value::Gen(s) => {
            let _ = write!(head, ",\"gen\":\"{s}\"");
        }
    }
    t.case(&head, || {
        let plain = Env::plain(0);
        let mut obs = vec![];
        let (alloc, bits) = (cfg!(feature = "alloc"), cfg!(all(feature = "alloc", feature = "bits")));
        if alloc {
            obs.push((v.write("tb", 0, plain), String::new()));
        }
        let full = v.bytes();
        if has("ep") {
            for (ep, there) in [("ti", bits), ("vv", alloc), ("vb", bits)] {
                if there {
                    obs.push((v.write(ep, 0, plain), String::new()));
                }
            }
            obs.push((v.write("tw", 0, plain), "Full".into()));
            let len = full.as_ref().map_or(0, |b| b.len());
            let mut ks: Vec<usize> = vec![0, len, len + 1, len + 7];
            if len > 0 {
                ks.push(len - 1);
                ks.push(len / 2);
            }
            for k in ks {
                obs.push((v.write("sl", k, plain), String::new()));
            }
        } else if has("bits") {
            if bits {
                obs.push((v.write("ti", 0, plain), String::new()));
            }
            obs.push((v.write("tw", 0, plain), "Full".into()));
        }
        if has("sched") {
            for s in [Sched::Full, Sched::Chunk(1), Sched::Chunk(3), Sched::Intr(1), Sched::Intr(4), Sched::Rand(salt), Sched::Rand(salt + 1)] {
                obs.push((v.write("tw", 0, Env { sched: s, ..plain }), format!("{s:?}")));
            }
        }
        if has("noseek") {
            obs.push((v.write("tw", 0, Env { noseek: true, ..plain }), "noseek".into()));
        }
        if has("unseekable") {
            for s in [Sched::Full, Sched::Rand(salt + 2)] {
                let o = v.write("tw", 0, Env { sched: s, noseek: true, ..plain });
                obs.push((o.replacen("\"ep\":\"tw\"", "\"ep\":\"nw\"", 1), format!("{s:?}")));
            }
        }
        if has("prefix") {
            obs.push((v.write("tp", 3, plain), "prefix".into()));
            obs.push((v.write("tp", 2 + (5 << 8), plain), "inside".into()));
        }
        if has("id") {
            if let Some(o) = v.id() {
                obs.push((o.replacen('{', "{\"ep\":\"id\",", 1), String::new()));
            }
        }
        if has("fault") {
            if let Some(b) = &full {
                let step = (b.len() / 24).max(1);
                for k in (0..=b.len()).step_by(step) {
                    let kind = KINDS[(k + salt as usize) % KINDS.len()];
                    for (s, once) in [(Sched::Full, false), (Sched::Chunk(1), false), (Sched::Rand(salt), false), (Sched::Full, true)] {
                        let o = v.write("tw", 0, Env { sched: s, fault: k, once, kind, ..plain });
                        let o = o.replacen("\"ep\":\"tw\"", &format!("\"ep\":\"tf\",\"flt\":{k},\"fk\":\"{}\"", if once { "WriteZero".to_string() } else { format!("{kind:?}") }), 1);
                        obs.push((o, format!("{s:?}")));
                    }
                }
            }
        }
        if has("seekfail") {
            for (k, once) in SEEK_FAULTS {
                let o = v.write("tw", 0, Env { seek_fault: k, once, ..plain });
                obs.push((o.replacen("\"ep\":\"tw\"", "\"ep\":\"sf\",\"fk\":\"PermissionDenied\"", 1), format!("seek {k}{}", if once { " once" } else { "" })));
            }
        }
        let mut o = String::from(",\"obs\":");
        put_obs(&mut o, obs);
        if has("dec") {
            if let Some(b) = &full {
                let r = op.read("fr", b, 0, Env::plain(b.len()));
                let same = v.same_as_decoded(b);
                let _ = write!(o, ",\"dec\":{},\"same\":{}", strip_al(r, false), same.map_or(2, |s| s as u8));
            }
        }
        o
    });
}

pub fn update_case(t: &mut Trace, op: &dyn Ops, from: Value) {
    let Some(mut v) = op.value(from) else { return };
    let before = v.tree();
    let head = format!("\"op\":\"u\",\"ty\":\"{}\",\"v\":{}", op.name(), before);
    t.case(&head, || {
        let Some(res) = v.update() else { return String::new() };
        let again = v.update().unwrap();
        let enc = v.write(if cfg!(feature = "alloc") { "tb" } else { "tw" }, 0, Env::plain(0));
        let mut o = format!(",\"res\":{res},\"again\":{again},\"enc\":{enc}");
        if let Some(b) = v.bytes() {
            let r = op.read("fr", &b, 0, Env::plain(b.len()));
            let _ = write!(o, ",\"dec\":{},\"same\":{}", strip_al(r, false), v.same_as_decoded(&b).map_or(2, |s| s as u8));
        }
        o
    });
}

/// an input for a definition: an encoding of a generated value, perturbed or followed by other bytes, or random bytes
pub fn input(op: &dyn Ops, r: &mut Rng) -> Vec<u8> {
    let small = |r: &mut Rng| -> u8 {
        match r.below(4) {
            0 => r.below(4) as u8,
            1 => [0, 1, 2, 3, 4, 5, 8, 16, 0x7f, 0x80, 0xfe, 0xff][r.below(12)],
            _ => r.next() as u8,
        }
    };
    match r.below(8) {
        0..=4 => {
            // preferably one that decodes
            let mut b = vec![];
            for _ in 0..6 {
                b = op.value(Value::Gen(r.next())).and_then(|v| v.bytes()).unwrap_or_default();
                if op.extent(&b, 0).is_some() {
                    break;
                }
            }
            for _ in 0..r.below(4) {
                b.push(small(r));
            }
            if r.chance(1, 3) && !b.is_empty() {
                let i = r.below(b.len());
                b[i] = small(r);
            }
            b
        }
        5 => (0..r.below(16)).map(|_| small(r)).collect(),
        6 => (0..1 + r.below(8)).map(|_| r.below(5) as u8).collect(),
        _ => (0..r.below(24)).map(|_| r.next() as u8).collect(),
    }
}

/// an input that opens with an extreme number of some width, or a small one, in either byte order
pub fn hostile(r: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    if r.chance(1, 3) {
        b.push(r.below(4) as u8);
    }
    for _ in 0..1 + r.below(2) {
        let w = [1, 2, 4, 8, 8, 16][r.below(6)];
        let top = 8 * w - 1;
        let n: u128 = match r.below(8) {
            0 => u128::MAX,
            1 => 1 << (r.below(top) + 1),
            2 => (1 << (r.below(top) + 1)) - 1,
            3 => u128::MAX << r.below(top),
            4 => (1u128 << top).wrapping_sub(r.below(9) as u128),
            5 => u128::MAX - r.below(70) as u128,
            _ => r.below(24) as u128,
        };
        let be = n.to_be_bytes();
        let mut x = be[16 - w..].to_vec();
        if r.chance(1, 4) {
            x.reverse();
        }
        b.extend(x);
    }
    for _ in 0..r.below(28) {
        b.push(if r.chance(1, 2) { r.below(4) as u8 } else { r.next() as u8 });
    }
    b
}

/// one byte of an input that decodes, put through its values
pub fn sweep_case(t: &mut Trace, op: &dyn Ops, data: &[u8], p: usize, all: bool) {
    let mut head = format!("\"op\":\"q\",\"ty\":\"{}\",\"p\":{p},\"src\":", op.name());
    put_bytes(&mut head, data);
    t.case(&head, || {
        let mut d = data.to_vec();
        let mut o = String::from(",\"obs\":[");
        let mut first = true;
        for b in 0..=255u8 {
            let edge = (b ^ data[p]).count_ones() < 2 || b < 20 || b > 250 || (b & b.wrapping_sub(1)) == 0 || (b & b.wrapping_add(1)) == 0 || b % 23 == 3;
            if !all && !edge {
                continue;
            }
            d[p] = b;
            let ob = strip_al(op.read("fr", &d, 0, Env::plain(d.len())), false);
            let _ = write!(o, "{}{},\"by\":{b}}}", if first { "" } else { "," }, &ob[..ob.len() - 1]);
            first = false;
        }
        o.push(']');
        o
    });
}

/// values one after the other in one writer, then read back to back in three ways
pub fn chain_case(t: &mut Trace, op: &dyn Ops, r: &mut Rng, off: usize) {
    let k = 2 + r.below(2);
    let mut seeds: Vec<u64> = vec![];
    for _ in 0..12 {
        let s = r.next();
        let good = op.value(Value::Gen(s)).and_then(|v| v.bytes()).is_some_and(|b| b.len() <= 48);
        if good && seeds.len() < k {
            seeds.push(s);
        }
    }
    let (trees, w, bytes) = op.chain_write(&seeds);
    let mut data = bytes.unwrap_or_default();
    if off > 0 {
        // what was written, `off` bits later
        let mut d = vec![0u8; data.len() + off.div_ceil(8)];
        for (i, b) in data.iter().enumerate() {
            let w = (*b as u16) << (8 - off % 8);
            d[i + off / 8] |= (w >> 8) as u8;
            if off % 8 > 0 {
                d[i + off / 8 + 1] |= w as u8;
            }
        }
        data = d;
    }
    for _ in 0..r.below(3) {
        data.push(r.next() as u8);
    }
    if r.chance(1, 4) && !data.is_empty() {
        let i = r.below(data.len());
        data[i] = r.below(5) as u8;
    }
    let mut head = format!("\"op\":\"k\",\"ty\":\"{}\",\"off\":{off},\"vs\":{trees},\"w\":{w},\"src\":", op.name());
    put_bytes(&mut head, &data);
    t.case(&head, || {
        let mut o = String::new();
        for ep in ["cb", "cr", "cx"] {
            let _ = write!(o, ",\"{ep}\":{}", op.chain_read(ep, &data, off, k + 1));
        }
        o
    });
}

/// the standard loop over definitions
pub fn main(all: Vec<Box<dyn Ops>>) {
    guard::install(8);
    #[cfg(feature = "logging")]
    crate::logger::install();
    let a = args();
    let has = |m: &str| a.modes.iter().any(|x| x == m);
    let mut t = Trace::open(&a);
    let find = |n: &str| all.iter().find(|o| o.name() == n);
    // behaviours of the specification: "r TYPE OFF HEX" or "w TYPE OFF HEX"
    if let Some(f) = &a.behaviours {
        for line in std::io::BufReader::new(std::fs::File::open(f).unwrap()).lines() {
            let line = line.unwrap();
            let p: Vec<&str> = line.split(' ').collect();
            if p[0].starts_with("OP") {
                #[cfg(all(feature = "std", feature = "bits"))]
                crate::direct::behaviour(&mut t, &line, &a.modes, a.seed);
                continue;
            }
            if p.len() < 4 {
                continue;
            }
            let Some(op) = find(p[1]) else { continue };
            let off: usize = p[2].parse().unwrap();
            let data: Vec<u8> = (0..p[3].len() / 2).map(|i| u8::from_str_radix(&p[3][2 * i..2 * i + 2], 16).unwrap()).collect();
            #[cfg(all(feature = "std", feature = "bits"))]
            if p[0] == "r" && has("own") {
                crate::own::leak_case(&mut t, &**op, &data, off);
            }
            if p[0] == "r" && has("read") {
                read_case(&mut t, &**op, &data, off, &a.modes, t_salt(&data));
            } else if p[0] == "w" && has("write") {
                write_case(&mut t, &**op, Value::Decode(&data, off), &a.modes, t_salt(&data));
            } else if p[0] == "u" && has("update") {
                update_case(&mut t, &**op, Value::Decode(&data, off));
            }
        }
    }
    #[cfg(all(feature = "std", feature = "bits"))]
    crate::direct::seeded(&mut t, 40 * a.n, a.seed, &a.modes);
    for op in &all {
        if a.only.as_ref().is_some_and(|o| o != op.name()) {
            continue;
        }
        let h = hash(op.name()) ^ a.seed.wrapping_mul(0x5851_F42D_4C95_7F2D);
        if has("size") {
            if let Some((bits, bytes)) = op.size() {
                let head = format!("\"op\":\"z\",\"ty\":\"{}\",\"bits\":{bits},\"bytes\":{}", op.name(), bytes.map_or(-1, |b| b as i64));
                t.case(&head, String::new);
            }
        }
        if has("sweep") {
            for i in 0..1 + a.n / 50 {
                let mut r = Rng::new(h ^ 0x5eed ^ (i as u64) << 17);
                // the shortest of a few encodings that decode
                let mut b: Option<Vec<u8>> = None;
                for _ in 0..8 {
                    let x = op.value(Value::Gen(r.next())).and_then(|v| v.bytes()).unwrap_or_default();
                    if op.extent(&x, 0).is_some() && b.as_ref().is_none_or(|y| x.len() < y.len()) {
                        b = Some(x);
                    }
                }
                let mut b = b.unwrap_or_default();
                if b.len() > 40 {
                    continue;
                }
                let used = b.len();
                b.extend([1, 2, 3, 0, 1, 0]);
                for p in 0..used.min(10) {
                    sweep_case(&mut t, &**op, &b, p, p < 2 || a.n > 50);
                }
            }
        }
        if has("chain") {
            for i in 0..a.n {
                let mut r = Rng::new(h ^ 0xc4a1 ^ (i as u64) << 19);
                let off = if i % 3 == 2 { r.below(12) } else { 0 };
                chain_case(&mut t, &**op, &mut r, off);
            }
        }
        for i in 0..a.n {
            let mut r = Rng::new(h ^ (i as u64) << 17);
            #[cfg(all(feature = "std", feature = "bits"))]
            if has("own") {
                let data = if i % 3 == 2 { input(&**op, &mut r) } else { op.value(Value::Gen(r.next())).and_then(|v| v.bytes()).unwrap_or_default() };
                crate::own::leak_case(&mut t, &**op, &data, 0);
                continue;
            }
            if has("read") {
                let data = if has("hostile") { hostile(&mut r) } else { input(&**op, &mut r) };
                let off = if has("off") && i % 3 != 0 { r.below(8 * data.len().min(3) + 2) } else { 0 };
                read_case(&mut t, &**op, &data, off, &a.modes, r.next() % 1000);
            }
            if has("write") {
                write_case(&mut t, &**op, Value::Gen(r.next()), &a.modes, r.next() % 1000);
                let data = input(&**op, &mut r);
                write_case(&mut t, &**op, Value::Decode(&data, 0), &a.modes, r.next() % 1000);
            }
            if has("update") {
                update_case(&mut t, &**op, Value::Gen(r.next()));
            }
        }
    }
}

fn t_salt(d: &[u8]) -> u64 {
    d.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)) % 1000
}
