//! A text value which records its construction and its end.
use crate::json::{self, J};
use crate::text::{tag, Val};
use std::cell::RefCell;
use static_xml::de::ParseText;
use static_xml::ser::ToText;

const MAGIC: u64 = 0x70726f6265_5a5a5a;

pub struct Probe {
    magic: u64,
    id: u64,
    s: String,
}

/// What is thrown when user code is to panic.
pub struct Thrown;

#[derive(Default)]
struct State {
    next: u64,
    calls: u64,
    panic_at: u64, // the call of user code which panics (0: none)
    log: Vec<(u8, u64)>, // b'n' new, b'd' drop, b'x' not a probe, b'r' returned, b'u' unwound
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

fn note(k: u8, id: u64) {
    // The thread may be at its end.
    let _ = STATE.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            s.log.push((k, id))
        }
    });
}

/// Starts recording.
pub fn reset(panic_at: u64) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.next = 0;
        s.calls = 0;
        s.panic_at = panic_at;
        s.log = Vec::with_capacity(1 << 15);
    })
}
pub fn returned() {
    note(b'r', 0);
}
pub fn unwound() {
    note(b'u', 0);
}
/// User code is called.
fn called() {
    let now = STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.calls += 1;
        s.calls == s.panic_at
    });
    if now {
        std::panic::panic_any(Thrown);
    }
}
pub fn take() -> Vec<(u8, u64)> {
    STATE.with(|s| std::mem::take(&mut s.borrow_mut().log))
}

impl Probe {
    pub fn of(s: String) -> Self {
        let id = STATE.with(|st| {
            let mut st = st.borrow_mut();
            st.next += 1;
            st.next
        });
        note(b'n', id);
        Probe { magic: MAGIC, id, s }
    }
    fn ok(&self) -> bool {
        // Not optimized away whatever the memory is thought to hold.
        std::hint::black_box(unsafe { std::ptr::read_volatile(&self.magic) }) == MAGIC
    }
    pub fn id(&self) -> u64 {
        if self.ok() {
            self.id
        } else {
            0
        }
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        if self.ok() {
            note(b'd', self.id);
            self.magic = 0;
        } else {
            note(b'x', 0);
            // Whatever it holds must not be freed.
            std::mem::forget(std::mem::take(&mut self.s));
        }
    }
}

impl ParseText for Probe {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        called();
        if text.contains('!') {
            return Err(Box::new(crate::errs::UserError("!".to_owned())));
        }
        Ok(Probe::of(text))
    }
}
impl ToText for Probe {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        Ok(self.s.clone())
    }
}
impl Default for Probe {
    fn default() -> Self {
        called();
        Probe::of("dflt".to_owned())
    }
}

thread_local! {
    static IDS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
}
/// The probes which `enc` has seen since the last call.
pub fn seen() -> Vec<u64> {
    IDS.with(|i| std::mem::take(&mut *i.borrow_mut()))
}

impl Val for Probe {
    fn enc(&self) -> J {
        IDS.with(|i| i.borrow_mut().push(self.id()));
        if !self.ok() {
            return tag("p", json::s("garbage"));
        }
        tag("p", json::text(&self.s))
    }
    fn dec(j: &J) -> Self {
        Probe::of(j.arr()[1].text())
    }
}
