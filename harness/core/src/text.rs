//! Text types: parsing and printing, directly and through elements and attributes.
use crate::json::{self, J};
use crate::run::log;
use static_xml::de::{DeserializeAttrField, ElementReader, ElementVisitor, ParseText, VisitorError, WhiteSpace};
use static_xml::ser::{ElementBuilder, Serialize, SerializeAttr, ToText};
use static_xml::ExpandedNameRef;

/// Values as the specification writes them.
pub trait Val: Sized {
    fn enc(&self) -> J;
    fn dec(j: &J) -> Self;
}

pub fn tag(t: &str, v: J) -> J {
    J::A(vec![json::s(t), v])
}

impl Val for String {
    fn enc(&self) -> J {
        tag("s", json::text(self))
    }
    fn dec(j: &J) -> Self {
        j.arr()[1].text()
    }
}
impl Val for bool {
    fn enc(&self) -> J {
        tag("b", J::I(*self as i64))
    }
    fn dec(j: &J) -> Self {
        j.arr()[1].int() == 1
    }
}
macro_rules! num {
    ($tag:expr, $($t:ident)*) => {$(
        impl Val for $t {
            fn enc(&self) -> J {
                tag($tag, json::text(&format!("{}", self)))
            }
            fn dec(j: &J) -> Self {
                j.arr()[1].text().parse().expect("harness: number")
            }
        }
    )*};
}
num!("i", i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
num!("f", f32 f64);

/// A root element with one attribute.
struct Attr<T>(Option<T>);
impl<T: DeserializeAttrField> ElementVisitor for Attr<T> {
    fn attribute(&mut self, _n: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.0 = Some(T::init(value)?);
        Ok(None)
    }
}
impl<T: DeserializeAttrField> static_xml::de::Deserialize for Attr<T> {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = Attr(None);
        e.read_to(&mut v)?;
        Ok(v)
    }
}
/// The same for writing.
struct Out<'a, T>(&'a T);
impl<'a, T: SerializeAttr> Serialize for Out<'a, T> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), static_xml::ser::Error> {
        self.0.write(b, ExpandedNameRef { namespace: "", local_name: "x" })
    }
}

/// Spelled so that every parser reads it back unchanged.
pub fn xml_text(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            'a'..='z' | 'A'..='Z' | '0'..='9' => c.to_string(),
            _ if c as u32 > 0x7f => c.to_string(),
            _ => format!("&#{};", c as u32),
        })
        .collect()
}

fn parsed<T: Val, E>(r: Result<T, E>) {
    match r {
        Ok(v) => log("r", vec![("ok", J::B(true)), ("v", v.enc())]),
        Err(_) => log("r", vec![("ok", J::B(false)), ("v", J::A(vec![json::s("none")]))]),
    }
}

pub fn ops<T: Val + ParseText + ToText>(case: &J) {
    let via = case.at("via").str();
    let name = ExpandedNameRef { namespace: "", local_name: "a" };
    match case.at("op").str() {
        "parse" => {
            for s in case.at("ss").arr() {
                let s = s.text();
                match via {
                    "text" => parsed(T::parse(s)),
                    "elem" => parsed(static_xml::de::from_str::<T>(&format!("<a>{}</a>", xml_text(&s)))),
                    "attr" => parsed(
                        static_xml::de::from_str::<Attr<T>>(&format!("<a x=\"{}\"/>", xml_text(&s)))
                            .map(|v| v.0.expect("harness: no attribute")),
                    ),
                    "oattr" => parsed(
                        static_xml::de::from_str::<Attr<Option<T>>>(&format!("<a x=\"{}\"/>", xml_text(&s)))
                            .map(|v| v.0.expect("harness: no attribute").expect("no value")),
                    ),
                    _ => panic!("harness: via"),
                }
            }
        }
        "print" => {
            for v in case.at("vs").arr() {
                let v = T::dec(v);
                let r = match via {
                    "text" => v.to_text().map(|t| json::text(&t)),
                    "elem" => static_xml::serialize_with_name(&v, name).to_string().map(json::s),
                    "attr" => static_xml::serialize_with_name(&Out(&v), name).to_string().map(json::s),
                    _ => panic!("harness: via"),
                };
                match r {
                    Ok(v) => log("p", vec![("ok", J::B(true)), ("s", v)]),
                    Err(_) => log("p", vec![("ok", J::B(false)), ("s", J::A(vec![]))]),
                }
            }
        }
        o => panic!("harness: op {}", o),
    }
}

pub fn norm(case: &J) {
    let m = [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse][case.at("m").int() as usize];
    for s in case.at("ss").arr() {
        let t = static_xml::de::normalize(s.text(), m);
        // Looked at as bytes first: it must still be UTF-8.
        let ok = std::str::from_utf8(t.as_bytes()).is_ok();
        log("n", vec![("ok", J::B(ok)), ("s", if ok { json::text(&t) } else { J::A(vec![]) })]);
    }
}

pub fn prims(case: &J) -> bool {
    match case.at("ty").str() {
        "str" => ops::<String>(case),
        "bool" => ops::<bool>(case),
        "i8" => ops::<i8>(case),
        "u8" => ops::<u8>(case),
        "i16" => ops::<i16>(case),
        "u16" => ops::<u16>(case),
        "i32" => ops::<i32>(case),
        "u32" => ops::<u32>(case),
        "i64" => ops::<i64>(case),
        "u64" => ops::<u64>(case),
        "i128" => ops::<i128>(case),
        "u128" => ops::<u128>(case),
        "f32" => ops::<f32>(case),
        "f64" => ops::<f64>(case),
        _ => return false,
    }
    true
}
