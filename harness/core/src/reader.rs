//! Handlers that follow a script of decisions and log everything they are given.
use crate::errs::{self, UserError};
use crate::json::{self, J};
use crate::run::{log, log_len};
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::{ExpandedNameRef, TextPosition};
use std::cell::RefCell;

thread_local! {
    /// The last error a handler discarded.
    static SAVED: RefCell<Option<static_xml::de::Error>> = RefCell::new(None);
    static SCRIPT: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
}

/// The next decision, below `n`; 0 when the script is exhausted.
fn decide(n: u8) -> u8 {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let d = s.0.get(s.1).copied().unwrap_or(b'0') - b'0';
        s.1 += 1;
        d % n
    })
}

fn user_error() -> static_xml::BoxedStdError {
    let m = format!("u{}", log_len());
    log("ret", vec![("d", json::s("wrap")), ("m", json::s(m.clone()))]);
    Box::new(UserError(m))
}

/// An error from elsewhere: the last one discarded, or one from another document.
fn other_error() -> VisitorError {
    let e = match SAVED.with(|s| s.borrow().clone()) {
        Some(e) => {
            ret("late");
            e
        }
        None => {
            const DOCS: [&str; 4] = ["<o:p xmlns:o='urn:o'>\n <q/></o:p>", "<p><q>", "<p>\n\n  12x</p>", "<o><p"];
            let e = match log_len() % 4 {
                k @ (0 | 2) => static_xml::de::from_str::<u32>(DOCS[k]).err(),
                k => static_xml::de::from_str::<Nothing>(DOCS[k]).err(),
            };
            let e = e.expect("harness: no error");
            log("ret", vec![("d", json::s("foreign")), ("m", json::s("")), ("e", errs::de_error(&e))]);
            e
        }
    };
    VisitorError::Propagate(e)
}

/// Reads anything.
struct Nothing;
impl ElementVisitor for Nothing {}
impl Deserialize for Nothing {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        element.read_to(&mut Nothing)?;
        Ok(Nothing)
    }
}

fn ret(d: &str) {
    log("ret", vec![("d", json::s(d)), ("m", json::s(""))]);
}

fn nsmap<'a>(m: impl IntoIterator<Item = (&'a str, &'a str)>) -> J {
    J::A(
        m.into_iter()
            .filter(|(p, u)| !(*p == "xml" || *p == "xmlns" || u.is_empty()))
            .map(|(p, u)| J::A(vec![json::s(p), json::s(u)]))
            .collect(),
    )
}

struct V;

impl ElementVisitor for V {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        log(
            "attr",
            vec![("n", json::s(name.namespace)), ("l", json::s(name.local_name)), ("s", json::text(&value))],
        );
        match decide(4) {
            0 => {
                ret("some");
                Ok(Some(value))
            }
            1 => {
                ret("none");
                Ok(None)
            }
            3 => Err(other_error()),
            _ => Err(VisitorError::Wrap(user_error())),
        }
    }

    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        handle(child, false)
    }

    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if s.is_empty() {
            return Ok(Some(s)); // an empty CDATA section, say; nothing worth telling apart
        }
        log(
            "chars",
            vec![("s", json::text(&s)), ("r", json::i(pos.row + 1)), ("c", json::i(pos.column + 1))],
        );
        match decide(3) {
            0 => {
                ret("some");
                Ok(Some(s))
            }
            1 => {
                ret("none");
                Ok(None)
            }
            _ => Err(user_error()),
        }
    }
}

fn handle(child: ElementReader<'_>, _root: bool) -> Result<Option<ElementReader<'_>>, VisitorError> {
    {
        let n = child.name();
        let e = child.expanded_name();
        log(
            "elem",
            vec![
                ("p", json::s(n.prefix.unwrap_or(""))),
                ("ql", json::s(n.local_name)),
                ("n", json::s(e.namespace)),
                ("l", json::s(e.local_name)),
                ("dep", json::i(child.depth())),
                ("ns", nsmap(child.namespace())),
            ],
        );
    }
    let r = match decide(6) {
        0 => {
            log("rd", vec![]);
            match child.read_to(&mut V) {
                Ok((name, ns, pos)) => {
                    log(
                        "rdok",
                        vec![
                            ("p", json::s(name.prefix.unwrap_or_default())),
                            ("l", json::s(name.local_name)),
                            ("n", json::s(name.namespace.unwrap_or_default())),
                            ("ns", nsmap(&ns)),
                            ("r", json::i(pos.row + 1)),
                            ("c", json::i(pos.column + 1)),
                        ],
                    );
                    Ok(())
                }
                Err(e) => {
                    log_err("rderr", &e);
                    Err(e)
                }
            }
        }
        1 => {
            ret("some");
            return Ok(Some(child));
        }
        2 => {
            drop(child);
            ret("none");
            return Ok(None);
        }
        3 => {
            log("rs", vec![]);
            match child.read_string() {
                Ok(s) => {
                    log("rsok", vec![("s", json::text(&s))]);
                    Ok(())
                }
                Err(e) => {
                    log_err("rserr", &e);
                    Err(e)
                }
            }
        }
        4 => {
            drop(child);
            return Err(VisitorError::Wrap(user_error()));
        }
        _ => {
            drop(child);
            return Err(other_error());
        }
    };
    match r {
        Ok(()) => match decide(3) {
            0 => {
                ret("none");
                Ok(None)
            }
            2 => Err(other_error()),
            _ => Err(VisitorError::Wrap(user_error())),
        },
        Err(e) => match decide(4) {
            0 => {
                ret("prop");
                Err(e)
            }
            1 => {
                ret("none");
                if let VisitorError::Propagate(e) = e {
                    SAVED.with(|s| *s.borrow_mut() = Some(e));
                }
                Ok(None)
            }
            3 => Err(other_error()),
            _ => Err(VisitorError::Wrap(user_error())),
        },
    }
}

fn log_err(t: &str, e: &VisitorError) {
    match e {
        VisitorError::Propagate(e) => log(t, vec![("e", errs::de_error(e)), ("ctx", J::B(true))]),
        VisitorError::Wrap(_) => log(t, vec![("ctx", J::B(false))]),
    }
}

struct Root;
impl Deserialize for Root {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        handle(element, true).map(|_| Root)
    }
}

pub fn run(case: &J) {
    SAVED.with(|s| *s.borrow_mut() = None);
    SCRIPT.with(|s| *s.borrow_mut() = (case.at("script").str().as_bytes().to_vec(), 0));
    match crate::source::read::<Root>(case) {
        Ok(_) => log("done", vec![("ok", J::B(true))]),
        Err(e) => log("done", vec![("ok", J::B(false)), ("e", errs::de_error(&e))]),
    }
}
