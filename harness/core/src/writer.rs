//! Scripted content written through the public serialization interface, to a scripted sink.
use crate::json::{self, J};
use crate::run;
use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeField, Serializer};
use static_xml::ExpandedNameRef;
use std::cell::{Cell, RefCell};
use std::io;

struct Node {
    name: (&'static str, &'static str),
    ns: Vec<(&'static str, &'static str)>,
    at: Vec<(&'static str, &'static str, String)>,
    kids: Vec<Kid>,
    swallow: bool,
    end: i64, // 1: builder dropped, 2: writer dropped, 3: own error before start, 4: own error before finish
    via: bool,
    phase: Cell<u8>,
}
enum Kid {
    Text(String),
    Node(Node),
}

fn leak(j: &J) -> &'static str {
    Box::leak(j.str().to_owned().into_boxed_str())
}

fn node(j: &J) -> Node {
    Node {
        name: (leak(j.at("n")), leak(j.at("l"))),
        ns: j.at("ns").arr().iter().map(|x| (leak(&x.arr()[0]), leak(&x.arr()[1]))).collect(),
        at: j.at("at").arr().iter().map(|x| (leak(&x.arr()[0]), leak(&x.arr()[1]), x.arr()[2].text())).collect(),
        kids: j
            .at("kids")
            .arr()
            .iter()
            .map(|k| match k.get("t") {
                Some(t) => Kid::Text(t.text()),
                None => Kid::Node(node(k)),
            })
            .collect(),
        swallow: j.at("sw").int() == 1,
        end: j.at("end").int(),
        via: j.at("via").int() == 1,
        phase: Cell::new(0),
    }
}

thread_local! {
    static ACCEPTED: Cell<i64> = Cell::new(0);
    static WRITES: Cell<i64> = Cell::new(0); // calls so far that write
    static OUT: RefCell<Vec<u8>> = RefCell::new(Vec::new());
}
/// Successful writes are logged together.
fn log(t: &str, kv: Vec<(&str, J)>) {
    let n = ACCEPTED.with(|a| a.replace(0));
    if n > 0 {
        run::log("w", vec![("n", J::I(n))]);
    }
    run::log(t, kv)
}
fn call(op: &str, mut kv: Vec<(&str, J)>) {
    if matches!(op, "start" | "text" | "finish") {
        WRITES.with(|w| w.set(w.get() + 1));
    }
    kv.push(("op", json::s(op)));
    log("c", kv)
}
fn result(r: &Result<(), Error>) {
    let m = match r {
        Ok(()) => String::new(),
        Err(e) => e.0.clone(),
    };
    log("r", vec![("ok", J::B(r.is_ok())), ("m", json::s(m))])
}
fn own() -> Error {
    Error("own error of the content".to_owned())
}

fn name(n: &Node) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: n.name.0, local_name: n.name.1 }
}

/// Namespaces and attributes; the builder is dropped by the caller after an error.
fn attributes(n: &Node, b: &mut ElementBuilder) -> Result<(), Error> {
    for (p, u) in &n.ns {
        call("ns", vec![("p", json::s(*p)), ("u", json::s(*u))]);
        b.namespace(p, u);
    }
    for (ns, l, v) in &n.at {
        call("attr", vec![("n", json::s(*ns)), ("l", json::s(*l)), ("v", json::text(v))]);
        let r = b.attribute(ExpandedNameRef { namespace: ns, local_name: l }, v.clone());
        result(&r);
        if !n.swallow {
            r?;
        }
    }
    if n.end == 3 {
        return Err(own());
    }
    Ok(())
}
fn children(n: &Node, w: &mut ElementWriter) -> Result<(), Error> {
    for k in &n.kids {
        let r = match k {
            Kid::Text(t) => {
                call("text", vec![("s", json::text(t))]);
                let r = w.text(t);
                result(&r);
                r
            }
            Kid::Node(c) => {
                call("elem", vec![("n", json::s(c.name.0)), ("l", json::s(c.name.1))]);
                if c.via {
                    let r = SerializeField::write(c, w, name(c));
                    if c.phase.get() == 1 || c.phase.get() == 3 {
                        result(&r);
                    }
                    r
                } else {
                    manual(c, w)
                }
            }
        };
        if !n.swallow {
            r?;
        }
    }
    if n.end == 4 {
        return Err(own());
    }
    Ok(())
}
fn manual(n: &Node, w: &mut ElementWriter) -> Result<(), Error> {
    let mut b = w.element(name(n));
    let r = attributes(n, &mut b);
    if r.is_err() || n.end == 1 {
        call("drop", vec![]);
        drop(b);
        return r;
    }
    call("start", vec![]);
    let mut w = match b.start() {
        Ok(w) => {
            result(&Ok(()));
            w
        }
        Err(e) => {
            let r = Err(e);
            result(&r);
            return r;
        }
    };
    let r = children(n, &mut w);
    if r.is_err() || n.end == 2 {
        call("drop", vec![]);
        drop(w);
        return r;
    }
    call("finish", vec![]);
    let r = w.finish();
    result(&r);
    r
}
impl Serialize for Node {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        self.phase.set(0);
        let r = attributes(self, b);
        match &r {
            Ok(()) => {
                call("start", vec![]);
                self.phase.set(1)
            }
            Err(_) => call("drop", vec![]),
        }
        r
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        result(&Ok(()));
        self.phase.set(2);
        let r = children(self, w);
        match &r {
            Ok(()) => {
                call("finish", vec![]);
                self.phase.set(3)
            }
            Err(_) => call("drop", vec![]),
        }
        r
    }
}

struct Sink {
    plan: Vec<i64>, // sizes accepted, cyclically; 0: nothing; -1: interrupted
    at: usize,
    fail: i64,
    call: i64, // fails in this call that writes, or the next that does write
    kind: i64,
    flush: i64,
    n: i64,
}
fn error(kind: i64) -> io::Error {
    let k = match kind {
        0 => io::ErrorKind::Other,
        1 => io::ErrorKind::BrokenPipe,
        2 => io::ErrorKind::WouldBlock,
        3 => io::ErrorKind::PermissionDenied,
        _ => io::ErrorKind::UnexpectedEof,
    };
    io::Error::new(k, format!("injected {}", kind))
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len() as i64;
        if !self.plan.is_empty() {
            let p = self.plan[self.at % self.plan.len()];
            self.at += 1;
            if p == -1 {
                log("i", vec![]);
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            n = n.min(p);
        }
        if self.call > 0 && WRITES.with(|w| w.get()) >= self.call {
            self.call = 0;
            log("x", vec![]);
            return if self.kind >= 0 { Err(error(self.kind)) } else { Ok(0) };
        }
        if self.fail >= 0 {
            n = n.min(self.fail - self.n);
            if n == 0 && self.kind >= 0 {
                log("x", vec![]);
                // Only once: whoever tries again would succeed.
                self.fail = -1;
                return Err(error(self.kind));
            }
        }
        if n == 0 {
            log("x", vec![]);
            self.fail = -1;
            return Ok(0);
        }
        OUT.with(|o| o.borrow_mut().extend_from_slice(&b[..n as usize]));
        ACCEPTED.with(|a| a.set(a.get() + n));
        self.n += n;
        Ok(n as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        log("f", vec![("ok", J::B(self.flush < 0))]);
        if self.flush >= 0 {
            return Err(error(self.flush));
        }
        Ok(())
    }
}

/// Sets the options, in one of several ways.
pub fn options<'a>(s: Serializer<'a>, o: &J) -> Serializer<'a> {
    let (ind, decl) = (o.at("ind").int() == 1, o.at("decl").int() == 1);
    match o.get("how").map_or(0, J::int) {
        0 => s.perform_indent(ind).write_document_declaration(decl),
        1 => s.write_document_declaration(decl).perform_indent(ind),
        2 => {
            // Only what differs from the defaults.
            let s = if decl { s } else { s.write_document_declaration(false) };
            if ind {
                s.perform_indent(true)
            } else {
                s
            }
        }
        _ => {
            let s = s.write_document_declaration(!decl).perform_indent(!ind).write_document_declaration(decl);
            let _ = s.perform_indent(ind).write_document_declaration(!decl); // a copy
            s.perform_indent(ind)
        }
    }
}

pub fn run(case: &J) {
    ACCEPTED.with(|a| a.set(0));
    WRITES.with(|w| w.set(0));
    OUT.with(|o| o.borrow_mut().clear());
    let root = node(case.at("prog"));
    let o = case.at("opts");
    call("elem", vec![("n", json::s(root.name.0)), ("l", json::s(root.name.1))]);
    let s = options(static_xml::serialize_with_name(&root, name(&root)), o);
    let r = match case.get("sink") {
        None => s.to_string().map(|x| OUT.with(|o| o.borrow_mut().extend_from_slice(x.as_bytes()))),
        Some(k) => {
            let mut sink = Sink {
                plan: k.at("plan").ints(),
                at: 0,
                fail: k.at("fail").int(),
                call: k.get("call").map_or(0, J::int),
                kind: k.at("kind").int(),
                flush: k.at("flush").int(),
                n: 0,
            };
            s.to(&mut sink)
        }
    };
    if root.phase.get() == 1 {
        result(&match &r {
            Ok(()) => Ok(()),
            Err(e) => Err(e.clone()),
        });
    }
    let b = OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
    log(
        "ret",
        vec![
            ("ok", J::B(r.is_ok())),
            ("m", json::s(r.as_ref().err().map(|e| e.0.clone()).unwrap_or_default())),
            ("hex", json::s(crate::schema::to_hex(&b))),
        ],
    );
}
