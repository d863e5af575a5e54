//! Ownership: containers of tokens whose construction and dropping is logged
//! (shapes of spec/DekuOwn.tla), and the bytes that operations leave allocated.
//!   {"op":"l","sh","src","own":{"st","ev":[..],"held":[..],"at"},"lk"}       ev: n built, -n dropped; at: events before decoding returned
//!   {"op":"m","ty","src","off","lk":[["fb",0],..]}
use crate::guard::{catch, left_by};
use crate::ops::status;
use crate::run::Trace;
use crate::*;
use deku::ctx::{ByteSize, Limit};
use deku::no_std_io::{Read, Seek};
use deku::prelude::*;
use deku::reader::Reader;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::Arc;

thread_local!(static LOG: RefCell<Vec<i64>> = const { RefCell::new(vec![]) });
thread_local!(static NEXT: Cell<i64> = const { Cell::new(0) });
fn log(n: i64) {
    let _ = LOG.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 400 {
            l.push(n);
        }
    });
}

/// one byte of input; 0 cannot be decoded
pub struct Tok {
    id: i64,
    c: u8,
}
impl Drop for Tok {
    fn drop(&mut self) {
        // what was never built may be anything
        log(if (1..1000).contains(&self.id) { -self.id } else { -999 });
        self.id = 0;
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.c == o.c
    }
}
impl Eq for Tok {}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.c.hash(h)
    }
}
impl<Ctx: Copy> DekuReader<'_, Ctx> for Tok {
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, _: Ctx) -> Result<Self, DekuError> {
        let c = u8::from_reader_with_ctx(reader, ())?;
        if c == 0 {
            return Err(DekuError::Parse("token".into()));
        }
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        log(id);
        Ok(Tok { id, c })
    }
}

#[derive(DekuRead)]
pub struct T2 {
    a: Tok,
    b: Tok,
}
#[derive(DekuRead)]
pub struct T3(Tok, Tok, Tok);
#[derive(DekuRead)]
pub struct Sa {
    a: Tok,
    #[deku(assert = "b.c != 2")]
    b: Tok,
    c: [Tok; 2],
}
#[derive(DekuRead)]
pub struct Sm {
    a: Tok,
    b: [Tok; 2],
    #[deku(map = "|t: Tok| -> Result<Tok, DekuError> { if t.c == 3 { Err(DekuError::Assertion(\"map\".into())) } else { Ok(t) } }")]
    c: Tok,
}
#[deku_derive(DekuRead)]
pub struct St {
    #[deku(temp)]
    t: Tok,
    v: [Tok; 2],
}
#[derive(DekuRead)]
pub struct Sc {
    a: Tok,
    #[deku(cond = "a.c == 1")]
    b: Option<Tok>,
    c: [Tok; 2],
}
#[derive(DekuRead)]
pub struct Sv {
    #[deku(count = "2")]
    v: Vec<Tok>,
    #[deku(count = "2")]
    w: Vec<[Tok; 2]>,
}
#[derive(DekuRead)]
#[deku(id_type = "u8")]
pub enum En {
    #[deku(id = "1")]
    A(Tok, Tok),
    #[deku(id = "2")]
    B([Tok; 2]),
    #[deku(id = "3")]
    C {
        a: [Tok; 2],
        #[deku(assert = "b.c != 2")]
        b: Tok,
    },
}

/// the tokens a value holds, in its order
pub trait Held {
    fn held(&self, o: &mut Vec<i64>);
}
impl Held for Tok {
    fn held(&self, o: &mut Vec<i64>) {
        o.push(self.id)
    }
}
macro_rules! seq {
    ($([$($g:tt)*] $t:ty),*) => {$(impl<$($g)*> Held for $t {
        fn held(&self, o: &mut Vec<i64>) {
            self.iter().for_each(|x| x.held(o))
        }
    })*};
}
seq!([T: Held] Vec<T>, [T: Held] Box<[T]>, [T: Held] Arc<[T]>, [T: Held, const N: usize] [T; N], [T: Held] Option<T>, [T: Held] HashSet<T>);
impl<T: Held> Held for Box<T> {
    fn held(&self, o: &mut Vec<i64>) {
        (**self).held(o)
    }
}
impl<T: Held> Held for Arc<T> {
    fn held(&self, o: &mut Vec<i64>) {
        (**self).held(o)
    }
}
impl<A: Held, B: Held, C: Held> Held for (A, B, C) {
    fn held(&self, o: &mut Vec<i64>) {
        self.0.held(o);
        self.1.held(o);
        self.2.held(o)
    }
}
impl Held for HashMap<Tok, Tok> {
    fn held(&self, o: &mut Vec<i64>) {
        for (k, v) in self {
            k.held(o);
            v.held(o);
        }
    }
}
macro_rules! fields {
    (@ $s:ident $o:ident $($f:tt),+) => { $($s.$f.held($o);)+ };
    ($($t:ty: $($f:tt),+);*) => {$(impl Held for $t {
        fn held(&self, o: &mut Vec<i64>) {
            fields!(@ self o $($f),+);
        }
    })*};
}
fields!(T2: a, b; T3: 0, 1, 2; Sa: a, b, c; Sm: a, b, c; St: v; Sc: a, b, c; Sv: v, w);
impl Held for En {
    fn held(&self, o: &mut Vec<i64>) {
        match self {
            En::A(a, b) => {
                a.held(o);
                b.held(o)
            }
            En::B(a) => a.held(o),
            En::C { a, b } => {
                a.held(o);
                b.held(o)
            }
        }
    }
}

fn decode<'a, T: DekuReader<'a, C> + Held, C>(data: &[u8], ctx: C) -> String {
    LOG.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(0));
    let mut o = String::from(",\"own\":{");
    let mut held = vec![];
    let r = catch(|| {
        let mut c = std::io::Cursor::new(data);
        T::from_reader_with_ctx(&mut Reader::new(&mut c), ctx)
    });
    status(&r, &mut o);
    let at = LOG.with(|l| l.borrow().len());
    if let Ok(Ok(v)) = &r {
        v.held(&mut held);
    }
    drop(r);
    let _ = write!(o, ",\"at\":{at},\"held\":{held:?},\"ev\":{:?}}}", LOG.with(|l| l.borrow().clone()));
    o
}

type P<T> = fn(&T) -> bool;
fn count<T>(n: usize) -> (Limit<T, P<T>>, ()) {
    (Limit::new_count(n), ())
}

fn shape(sh: &str, d: &[u8]) -> Option<String> {
    Some(match sh {
        "tok" => decode::<Tok, ()>(d, ()),
        "boxed" => decode::<Box<Tok>, ()>(d, ()),
        "arc" => decode::<Arc<Tok>, ()>(d, ()),
        "opt" => decode::<Option<Tok>, ()>(d, ()),
        "a0" => decode::<[Tok; 0], ()>(d, ()),
        "a1" => decode::<[Tok; 1], ()>(d, ()),
        "a3" => decode::<[Tok; 3], ()>(d, ()),
        "a5" => decode::<[Tok; 5], ()>(d, ()),
        "a2a2" => decode::<[[Tok; 2]; 2], ()>(d, ()),
        "a3b" => decode::<[Box<Tok>; 3], ()>(d, ()),
        "a2t" => decode::<[T2; 2], ()>(d, ()),
        "v3" => decode::<Vec<Tok>, _>(d, count(3)),
        "vy3" => decode::<Vec<Tok>, _>(d, (Limit::<Tok, P<Tok>>::new_byte_size(ByteSize(3)), ())),
        "vall" => decode::<Vec<Tok>, _>(d, (Limit::<Tok, P<Tok>>::end(), ())),
        "vu" => decode::<Vec<Tok>, _>(d, (Limit::new_until(|t: &Tok| t.c == 2), ())),
        "va2" => decode::<Vec<[Tok; 2]>, _>(d, count(2)),
        "b3" => decode::<Box<[Tok]>, _>(d, count(3)),
        "c3" => decode::<Arc<[Tok]>, _>(d, count(3)),
        "t3" if d.len() % 2 == 0 => decode::<T3, ()>(d, ()),
        "t3" => decode::<(Tok, Tok, Tok), ()>(d, ()),
        "set3" => decode::<HashSet<Tok>, _>(d, count(3)),
        "map2" => decode::<HashMap<Tok, Tok>, _>(d, count(2)),
        "map3" => decode::<HashMap<Tok, Tok>, _>(d, count(3)),
        "sa" => decode::<Sa, ()>(d, ()),
        "sm" => decode::<Sm, ()>(d, ()),
        "st" => decode::<St, ()>(d, ()),
        "sc" => decode::<Sc, ()>(d, ()),
        "sv" => decode::<Sv, ()>(d, ()),
        "en" => decode::<En, ()>(d, ()),
        "a2en" => decode::<[En; 2], ()>(d, ()),
        _ => return None,
    })
}

pub fn own_case(t: &mut Trace, sh: &str, data: &[u8]) {
    let mut head = format!("\"op\":\"l\",\"sh\":\"{sh}\",\"src\":");
    put_bytes(&mut head, data);
    t.case(&head, || {
        let o = shape(sh, data).unwrap_or_else(|| panic!("shape {sh}"));
        let lk = left_by(|| drop(shape(sh, data)));
        format!("{o},\"lk\":{lk}")
    });
}

/// the bytes left allocated by what is done with a definition
pub fn leak_case(t: &mut Trace, op: &dyn Ops, data: &[u8], off: usize) {
    let mut head = format!("\"op\":\"m\",\"ty\":\"{}\",\"off\":{off},\"src\":", op.name());
    put_bytes(&mut head, data);
    t.case(&head, || {
        let env = Env::plain(data.len());
        let mut lk: Vec<(&str, isize)> = vec![];
        for ep in ["fb", "fr", "fx", "tf"] {
            if off == 0 || ep == "fb" {
                lk.push((ep, left_by(|| drop(op.read(ep, data, off, env)))));
            }
        }
        for ep in ["tb", "ti", "sl", "tw"] {
            lk.push((ep, left_by(|| drop(op.value(Value::Decode(data, off)).map(|v| v.write(ep, 64, env))))));
        }
        lk.push(("up", left_by(|| drop(op.value(Value::Decode(data, off)).map(|mut v| v.update())))));
        let l: Vec<String> = lk.iter().map(|(e, n)| format!("[\"{e}\",{n}]")).collect();
        format!(",\"lk\":[{}]", l.join(","))
    });
}
