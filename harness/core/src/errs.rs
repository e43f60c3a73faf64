//! Projection of static_xml errors to JSON through their public interface only.
use crate::json::{self, J};
use std::error::Error as _;

/// The error a scripted handler raises.
#[derive(Debug)]
pub struct UserError(pub String);
impl std::fmt::Display for UserError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for UserError {}

pub fn de_error(e: &static_xml::de::Error) -> J {
    let stack = e
        .stack()
        .iter()
        .map(|s| {
            json::obj(vec![
                ("p", json::s(s.name.prefix.clone().unwrap_or_default())),
                ("n", json::s(s.name.namespace.clone().unwrap_or_default())),
                ("l", json::s(s.name.local_name.clone())),
                ("r", json::i(s.pos.row + 1)),
                ("c", json::i(s.pos.column + 1)),
            ])
        })
        .collect();
    let mut src = "none".to_owned();
    let mut cur = e.source();
    while let Some(c) = cur {
        if let Some(u) = c.downcast_ref::<UserError>() {
            src = format!("user:{}", u.0);
            break;
        }
        if let Some(u) = c.downcast_ref::<std::io::Error>() {
            src = format!("io:{:?}", u.kind()); // the parser repeats an error with its kind only
            break;
        }
        src = "other".to_owned();
        cur = c.source();
    }
    json::obj(vec![("stack", J::A(stack)), ("disp", json::s(e.to_string())), ("src", json::s(src))])
}
