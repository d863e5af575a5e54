//! deku::noseek::NoSeek called directly: sequences of reads, writes and seeks
//! over streams that move as much as they like.
//!   {"op":"n","dir":"r"|"w","src":[..],"ops":[[kind,n],..],"runs":[{"env","out":[..],"obs":[{"st","kd","n","b","p","in"}]}]}
use crate::guard::catch;
use crate::ops::status;
use crate::run::Trace;
use crate::*;
use deku::no_std_io::{Read, Seek, SeekFrom, Write};
use deku::noseek::NoSeek;
use deku::prelude::*;
use std::fmt::Write as _;
use std::io::{IoSlice, IoSliceMut};

fn io<T>(r: std::io::Result<T>) -> Result<T, DekuError> {
    r.map_err(|e| DekuError::Io(e.kind()))
}
fn to(k: char, n: i64) -> SeekFrom {
    match k {
        's' => SeekFrom::Start(n as u64),
        'c' => SeekFrom::Current(n),
        _ => SeekFrom::End(n),
    }
}

/// (bytes moved, data) of one operation
fn read_op(s: &mut NoSeek<Src>, k: char, n: i64) -> Result<(usize, Vec<u8>), DekuError> {
    let mut buf = vec![0u8; n.max(0) as usize];
    Ok(match k {
        'r' => {
            let m = io(s.read(&mut buf))?;
            (m, buf[..m].to_vec())
        }
        'v' => {
            let (a, b) = buf.split_at_mut(n as usize / 2);
            let m = io(s.read_vectored(&mut [IoSliceMut::new(a), IoSliceMut::new(b)]))?;
            // plain sources fill the first buffer that is not empty
            let from = if n / 2 > 0 { 0 } else { n as usize / 2 };
            (m, buf[from..from + m].to_vec())
        }
        'x' => {
            io(s.read_exact(&mut buf))?;
            (buf.len(), buf)
        }
        'a' => {
            let mut v = vec![7];
            let m = io(s.read_to_end(&mut v))?;
            (m, v[1..].to_vec())
        }
        't' => {
            let mut v = String::from("x");
            let m = io(s.read_to_string(&mut v))?;
            (m, v.as_bytes()[1..].to_vec())
        }
        _ => {
            let p = io(s.seek(to(k, n)))?;
            (0, (p as u32).to_be_bytes().to_vec())
        }
    })
}
fn write_op(s: &mut NoSeek<Sink>, k: char, n: i64, next: &mut u8) -> Result<(usize, Vec<u8>), DekuError> {
    let buf: Vec<u8> = (0..n.max(0)).map(|i| next.wrapping_add(i as u8)).collect();
    let m = match k {
        'w' => io(s.write(&buf))?,
        'V' => {
            let (a, b) = buf.split_at(n as usize / 2);
            io(s.write_vectored(&[IoSlice::new(a), IoSlice::new(b)]))?
        }
        'W' => {
            io(s.write_all(&buf))?;
            buf.len()
        }
        'f' => {
            io(s.flush())?;
            0
        }
        _ => {
            let p = io(s.seek(to(k, n)))?;
            return Ok((0, (p as u32).to_be_bytes().to_vec()));
        }
    };
    *next = next.wrapping_add(m as u8);
    Ok((m, vec![]))
}

fn put(o: &mut String, r: Result<Result<(usize, Vec<u8>), DekuError>, String>, at: u64, inner: u64) {
    o.push('{');
    if status(&r, o) {
        let (n, b) = r.unwrap().unwrap();
        let _ = write!(o, ",\"n\":{n},\"b\":");
        put_bytes(o, &b);
    }
    let _ = write!(o, ",\"p\":{at},\"in\":{inner}}}");
}
fn go_on(o: &str, k: char) -> bool {
    let last = &o[o.rfind("{\"st\"").unwrap()..];
    !last.contains("\"panic\"") && (last.contains("\"st\":\"ok\"") || "sce".contains(k) || last.contains("Interrupted"))
}

pub fn wrap_case(t: &mut Trace, dir: &str, src: &[u8], ops: &[(char, i64)], salt: u64) {
    let mut head = format!("\"op\":\"n\",\"dir\":\"{dir}\",\"src\":");
    put_bytes(&mut head, src);
    head.push_str(",\"ops\":[");
    for (i, (k, n)) in ops.iter().enumerate() {
        let _ = write!(head, "{}[\"{k}\",{n}]", if i > 0 { "," } else { "" });
    }
    head.push(']');
    t.case(&head, || {
        let mut o = String::from(",\"runs\":[");
        for (i, sched) in [Sched::Full, Sched::Chunk(1), Sched::Intr(2), Sched::Rand(salt)].into_iter().enumerate() {
            let _ = write!(o, "{}{{\"env\":\"{sched:?}\",\"obs\":[", if i > 0 { "," } else { "" });
            let mut out = vec![];
            if dir == "r" {
                let mut s = NoSeek::new(Src::new(src, sched));
                for (j, &(k, n)) in ops.iter().enumerate() {
                    if j > 0 {
                        o.push(',');
                    }
                    let r = catch(|| read_op(&mut s, k, n));
                    let at = if j % 2 == 0 { s.stream_position() } else { s.seek(SeekFrom::Current(0)) };
                    put(&mut o, r, at.unwrap_or(99999), s.get_mut().pos);
                    if !go_on(&o, k) {
                        break;
                    }
                }
                let _ = s.into_inner().pos;
            } else {
                let mut s = NoSeek::new(Sink::new(sched));
                let mut next = 1;
                for (j, &(k, n)) in ops.iter().enumerate() {
                    if j > 0 {
                        o.push(',');
                    }
                    let r = catch(|| write_op(&mut s, k, n, &mut next));
                    let at = if j % 2 == 0 { s.stream_position() } else { s.seek(SeekFrom::Current(0)) };
                    put(&mut o, r, at.unwrap_or(99999), s.get_ref().pos);
                    if !go_on(&o, k) {
                        break;
                    }
                }
                out = s.into_inner().data;
            }
            o.push_str("],\"out\":");
            put_bytes(&mut o, &out);
            o.push('}');
        }
        o.push(']');
        o
    });
}

pub fn seeded(t: &mut Trace, n: usize, seed: u64) {
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(6007) ^ (i as u64) << 20);
        let dir = if r.chance(1, 2) { "r" } else { "w" };
        let len = if dir == "r" { r.below(12) } else { 0 };
        let src: Vec<u8> = (0..len).map(|_| (r.next() % 128) as u8).collect();
        let kinds: Vec<char> = if dir == "r" { "rrrvvxatsce" } else { "wwwVVWfsce" }.chars().collect();
        let ops: Vec<(char, i64)> = (0..2 + r.below(7))
            .map(|_| {
                let k = kinds[r.below(kinds.len())];
                let n = match k {
                    'c' | 'e' => r.below(4) as i64 - 2,
                    's' => r.below(9) as i64,
                    'a' | 't' | 'f' => 0,
                    _ => r.below(6) as i64,
                };
                (k, n)
            })
            .collect();
        wrap_case(t, dir, &src, &ops, i as u64);
    }
}
