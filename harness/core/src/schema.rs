//! Reading and writing whole values.
use crate::errs;
use crate::json::{self, J};
use crate::probe;
use crate::run::log;
use crate::source;
use crate::text::Val;
use static_xml::de::{Deserialize, DeserializeAttrField, DeserializeElementField, ElementReader, ParseText, VisitorError};
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeAttr, SerializeField, Serializer, ToText};
use static_xml::ExpandedNameRef;
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// Live heap blocks of this thread; counted by the allocator of the derived harness.
pub fn count(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn ev(i: i64, payload: J) -> J {
    J::A(vec![json::s("e"), J::I(i), payload])
}
pub fn unit() -> J {
    J::A(vec![json::s("u")])
}
pub fn named<T: Serialize>(v: &T) -> Serializer<'_> {
    static_xml::serialize_with_name(v, ExpandedNameRef { namespace: "", local_name: "v" })
}

impl<T: Val> Val for Option<T> {
    fn enc(&self) -> J {
        J::A(vec![json::s("o"), J::A(self.iter().map(Val::enc).collect())])
    }
    fn dec(j: &J) -> Self {
        j.arr()[1].arr().first().map(Val::dec)
    }
}
impl<T: Val> Val for Vec<T> {
    fn enc(&self) -> J {
        J::A(vec![json::s("v"), J::A(self.iter().map(Val::enc).collect())])
    }
    fn dec(j: &J) -> Self {
        j.arr()[1].arr().iter().map(Val::dec).collect()
    }
}

/// Other names of the types of fields.
pub type Maybe<T> = Option<T>;
pub type Many<T> = Vec<T>;

/// Field types which a user has written. What comes later replaces what was there.
#[derive(Default)]
pub struct Last<T>(Option<T>, Vec<T>);
/// What comes later is not even read.
#[derive(Default)]
pub struct First<T>(Vec<T>);
/// A third one is an error.
#[derive(Default)]
pub struct Two<T>(Option<T>, Vec<T>);
/// An attribute which must be there, but may be empty.
#[derive(Default)]
pub struct Nil<T>(Option<T>);

impl<T: Deserialize> DeserializeElementField for Last<T> {
    fn init(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Last(Some(T::deserialize(element)?), vec![]))
    }
    fn update(&mut self, element: ElementReader<'_>) -> Result<(), VisitorError> {
        self.0 = None;
        *self = Self::init(element)?;
        Ok(())
    }
    fn missing(_: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(Last(None, vec![]))
    }
}
impl<T: Deserialize> DeserializeElementField for First<T> {
    fn init(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(First(vec![T::deserialize(element)?]))
    }
    fn update(&mut self, _element: ElementReader<'_>) -> Result<(), VisitorError> {
        Ok(())
    }
    fn missing(_: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(First(vec![]))
    }
}
impl<T: Deserialize> DeserializeElementField for Two<T> {
    fn init(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Two(Some(T::deserialize(element)?), vec![]))
    }
    fn update(&mut self, element: ElementReader<'_>) -> Result<(), VisitorError> {
        if !self.1.is_empty() {
            return Err(VisitorError::Wrap(Box::new(errs::UserError("three".to_owned()))));
        }
        self.1.push(T::deserialize(element)?);
        Ok(())
    }
    fn missing(_: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(Two(None, vec![]))
    }
}
impl<T: ParseText> DeserializeAttrField for Nil<T> {
    fn init(value: String) -> Result<Self, VisitorError> {
        Ok(Nil(if value.is_empty() { None } else { Some(T::parse(value).map_err(VisitorError::Wrap)?) }))
    }
    fn missing(_: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Err(VisitorError::Wrap(Box::new(errs::UserError("missing".to_owned()))))
    }
}
impl<T: ToText> SerializeAttr for Nil<T> {
    fn write<'a>(&self, builder: &mut ElementBuilder<'a>, name: ExpandedNameRef<'a>) -> Result<(), Error> {
        builder.attribute(name, self.0.as_ref().map_or(Ok(String::new()), ToText::to_text)?)?;
        Ok(())
    }
}
impl<T: Serialize> SerializeField for First<T> {
    fn write<'a>(&self, parent: &mut ElementWriter<'a>, name: ExpandedNameRef<'a>) -> Result<(), Error> {
        self.0.write(parent, name)
    }
}
macro_rules! first_and_rest {
    ($t:ident) => {
        impl<T: Serialize> SerializeField for $t<T> {
            fn write<'a>(&self, parent: &mut ElementWriter<'a>, name: ExpandedNameRef<'a>) -> Result<(), Error> {
                self.0.write(parent, name)?;
                self.1.write(parent, name)
            }
        }
        impl<T: Val> Val for $t<T> {
            fn enc(&self) -> J {
                J::A(vec![json::s("v"), J::A(self.0.iter().chain(&self.1).map(Val::enc).collect())])
            }
            fn dec(j: &J) -> Self {
                let mut all = j.arr()[1].arr().iter().map(Val::dec);
                $t(all.next(), all.collect())
            }
        }
    };
}
first_and_rest!(Last);
first_and_rest!(Two);
impl<T: Val> Val for First<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
    fn dec(j: &J) -> Self {
        First(Val::dec(j))
    }
}
impl<T: Val> Val for Nil<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
    fn dec(j: &J) -> Self {
        Nil(Val::dec(j))
    }
}

pub fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn own(l: &[(u8, u64)]) {
    for (k, id) in l {
        let t = match k {
            b'n' => "new",
            b'd' => "drop",
            b'u' => "unwound",
            _ => "bad",
        };
        log(t, vec![("i", json::i(*id as i64))]);
    }
}

fn de<T: Val + Deserialize>(case: &J) {
    probe::reset(case.get("panic").map_or(0, |p| p.int() as u64));
    let before = live();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| source::read::<T>(case)));
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            if !p.is::<probe::Thrown>() {
                std::panic::resume_unwind(p);
            }
            drop(p);
            let leak = live() - before;
            probe::unwound();
            own(&probe::take());
            log("end", vec![("leak", J::I(leak))]);
            return;
        }
    };
    probe::returned();
    let (ret, ids) = match r {
        Ok(v) => {
            let e = v.enc();
            let ids = probe::seen();
            drop(v);
            let after = live();
            // What is still alive are `e` and `ids`.
            let (e2, ids2) = (e.clone(), ids.clone());
            let own = live() - after;
            drop((e2, ids2));
            ((true, e, J::B(false), after - before - own), ids)
        }
        Err(e) => {
            let err = errs::de_error(&e);
            drop(e);
            let after = live();
            let err2 = err.clone();
            let own = live() - after;
            drop(err2);
            ((false, J::A(vec![json::s("none")]), err, after - before - own), vec![])
        }
    };
    let l = probe::take();
    let at = l.iter().position(|x| x.0 == b'r').unwrap();
    own(&l[..at]);
    log(
        "ret",
        vec![
            ("ok", J::B(ret.0)),
            ("v", ret.1),
            ("err", ret.2),
            ("ids", J::A(ids.iter().map(|i| json::i(*i as i64)).collect())),
        ],
    );
    own(&l[at + 1..]);
    log("end", vec![("leak", J::I(ret.3))]);
}

/// A sink which takes what it is given in pieces.
struct Pieces {
    out: Vec<u8>,
    flushed: usize,
    n: usize,
}
impl std::io::Write for Pieces {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        let k = b.len().min(1 + self.n % 7);
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushed = self.out.len();
        Ok(())
    }
}

fn ser<T: Val + Deserialize>(case: &J, f: fn(&T) -> Serializer<'_>) {
    let v = T::dec(case.at("v"));
    for o in case.at("opts").arr() {
        let s = crate::writer::options(f(&v), o);
        let r = if o.at("sink").int() == 1 {
            let mut p = Pieces { out: vec![], flushed: 0, n: 0 };
            let r = s.to(&mut p);
            r.map(|()| {
                p.out.truncate(p.flushed);
                p.out
            })
        } else {
            s.to_string().map(String::into_bytes)
        };
        match r {
            Ok(b) => {
                let back: Result<T, _> = static_xml::de::read(&b[..]);
                let v = match &back {
                    Ok(v) => v.enc(),
                    Err(_) => J::A(vec![json::s("none")]),
                };
                log("out", vec![("ok", J::B(true)), ("hex", json::s(to_hex(&b))), ("back", v)]);
            }
            Err(_) => log("out", vec![("ok", J::B(false)), ("hex", json::s("")), ("back", J::A(vec![json::s("none")]))]),
        }
    }
}

pub fn ops<T: Val + Deserialize>(case: &J, f: fn(&T) -> Serializer<'_>) {
    match case.at("k").str() {
        "de" => de::<T>(case),
        "ser" => ser::<T>(case, f),
        k => panic!("harness: kind {}", k),
    }
}
