//! Oracles that apply to every input text whatsoever.

use crate::run::*;
use crate::{sym, tmpl};
use yary::event::{flag::*, types::*, Events};
use yary::reader::Read;

pub fn cap(n: usize) -> usize {
    4 * n + 12
}

// ---------------------------------------------------------------- grammar

/// The documented event grammar, as a push-down automaton that also knows the
/// NodeKind every node must carry.
#[derive(Clone, Copy, PartialEq)]
enum Fr {
    Seq,
    Key,
    Val,
}
pub struct Gram {
    /// 0 before StreamStart, 1 between documents, 2 in a document before its
    /// root, 3 inside the root, 4 after the root, 5 ended
    st: u8,
    docs: usize,
    stack: Vec<Fr>,
}
impl Gram {
    pub fn new() -> Self {
        Gram { st: 0, docs: 0, stack: Vec::with_capacity(16) }
    }
    fn node(&mut self, kind: Option<NodeKind>, open: Option<Fr>) {
        if self.st == 2 {
            if let Some(k) = kind {
                sym::check(k == NodeKind::Root, "grammar: first node of a document is not marked Root");
            } else {
                sym::fail("grammar: a document's root is an alias");
            }
            self.st = 3;
        } else {
            sym::check(self.st == 3, "grammar: node outside of a document");
            let n = self.stack.len();
            sym::check(n > 0, "grammar: second root node in a document");
            let want = match self.stack[n - 1] {
                Fr::Seq => NodeKind::Entry,
                Fr::Key => {
                    self.stack[n - 1] = Fr::Val;
                    NodeKind::Key
                }
                Fr::Val => {
                    self.stack[n - 1] = Fr::Key;
                    NodeKind::Value
                }
            };
            if let Some(k) = kind {
                sym::check(k == want, "grammar: node carries the wrong NodeKind");
            }
        }
        match open {
            Some(f) => self.stack.push(f),
            None => {
                if self.stack.is_empty() {
                    self.st = 4;
                }
            }
        }
    }
    fn close(&mut self) {
        self.stack.pop();
        if self.stack.is_empty() {
            self.st = 4;
        }
    }
    pub fn feed(&mut self, e: &EventData) {
        use EventData::*;
        sym::check(self.st != 5, "grammar: event after StreamEnd");
        match e {
            StreamStart(_) => {
                sym::check(self.st == 0, "grammar: StreamStart not first");
                self.st = 1;
            }
            _ if self.st == 0 => sym::fail("grammar: stream does not begin with StreamStart"),
            StreamEnd => {
                sym::check(self.st == 1, "grammar: StreamEnd inside a document");
                sym::check(self.docs > 0, "grammar: stream without a document");
                self.st = 5;
            }
            DocumentStart(d) => {
                sym::check(self.st == 1, "grammar: DocumentStart inside a document");
                self.st = 2;
                self.docs += 1;
                let (mut p, mut s) = (false, false);
                for (k, _) in &d.directives.tags {
                    p |= **k == *"!";
                    s |= **k == *"!!";
                }
                sym::check(p && s, "grammar: DocumentStart without the default tag handles");
            }
            DocumentEnd(_) => {
                sym::check(self.st == 2 || self.st == 4, "grammar: DocumentEnd while a node is open");
                self.st = 1;
            }
            Alias(_) => self.node(None, None),
            Scalar(n) => {
                self.node(Some(n.kind), None)
            }
            SequenceStart(n) => {
                self.node(Some(n.kind), Some(Fr::Seq))
            }
            MappingStart(n) => {
                self.node(Some(n.kind), Some(Fr::Key))
            }
            SequenceEnd => {
                let n = self.stack.len();
                sym::check(n > 0 && self.stack[n - 1] == Fr::Seq, "grammar: SequenceEnd does not close a sequence");
                self.close()
            }
            MappingEnd => {
                let n = self.stack.len();
                sym::check(
                    n > 0 && self.stack[n - 1] == Fr::Key,
                    "grammar: MappingEnd does not close a mapping after complete pairs",
                );
                self.close()
            }
        }
    }
    pub fn end(&self) {
        sym::check(self.st == 5, "grammar: the stream ended without StreamEnd");
    }
}

// ---------------------------------------------------------------- entries

fn flags(param: u64) -> Flags {
    if param & 1 != 0 {
        O_LAZY
    } else {
        O_NIL
    }
}

fn robust<R: Read>(src: &R, fl: Flags, len: usize) -> u32 {
    let mut it = Events::new(src, fl);
    let mut n = 0usize;
    let mut r = 1;
    loop {
        let x = it.iter().next();
        match x {
            None => break,
            Some(Ok(mut e)) => {
                n += 1;
                sym::check(n <= cap(len), "termination: more events than the input can justify");
                if let EventData::Scalar(s) = e.data_mut() {
                    let was = s.content.is_unevaluated();
                    sym::check(was != s.content.is_evaluated(), "is_evaluated and is_unevaluated agree");
                    let bad = s.content.evaluate_by_ref().is_err();
                    sym::check(was || !bad, "an evaluated scalar failed to evaluate");
                    let t = scalar(&s.content);
                    if bad {
                        r = 3;
                        sym::check(t.is_empty(), "scalar not empty after failed evaluation");
                    }
                }
            }
            Some(Err(_)) => {
                r = 2;
                break;
            }
        }
    }
    // the iterator must stay finished
    for _ in 0..3 {
        if it.iter().next().is_some() {
            sym::fail("termination: the iterator yields again after it ended or failed");
        }
    }
    r
}

/// The text as a stream. bits 8-23: piece size
fn stream(buf: &[u8], param: u64) -> impl Read {
    let mut src = crate::stream::Src::new(buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    yary::reader::from_read(src)
}

/// No panic, termination, finished iterators stay finished. param: bit 0 lazy,
/// bit 1 streamed, bits 8-23 piece size
pub fn t_robust(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    if param & 2 != 0 {
        sym::reach(robust(&stream(&buf, param), flags(param), s.len()));
        return;
    }
    let rd = yary::reader::from_utf8(s);
    sym::reach(robust(&rd, flags(param), s.len()));
}

/// The event grammar on every accepted (prefix of a) stream. param: as t_robust
pub fn t_grammar(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    if param & 2 != 0 {
        grammar(&stream(&buf, param), flags(param), s);
    } else {
        grammar(&yary::reader::from_utf8(s), flags(param), s);
    }
}
fn grammar<R: Read>(rd: &R, fl: Flags, s: &str) {
    let mut it = Events::new(rd, fl);
    let mut g = Gram::new();
    let mut n = 0;
    let mut ok = true;
    for x in it.iter() {
        n += 1;
        if n > cap(s.len()) {
            sym::assume(false);
        }
        match x {
            Ok(e) => g.feed(e.data()),
            Err(_) => {
                ok = false;
                break;
            }
        }
    }
    if ok {
        g.end();
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// Lazy and eager streams agree.
pub fn t_lazy(arg: &[u8], _param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let ra = yary::reader::from_utf8(s);
    let rb = yary::reader::from_utf8(s);
    let a = drive(&ra, O_NIL, cap(s.len()));
    let b = drive(&rb, O_LAZY, cap(s.len()));
    let n = a.ev.len().min(b.ev.len());
    for i in 0..n {
        sym::check(same(a.ev[i].data(), b.ev[i].data()), "lazy: events differ from the eager stream");
        sym::check(
            a.ev[i].start() == b.ev[i].start() && a.ev[i].end() == b.ev[i].end(),
            "lazy: event marks differ from the eager stream",
        );
    }
    match (a.err, b.err) {
        (None, None) => {
            sym::check(a.ev.len() == b.ev.len(), "lazy: stream lengths differ");
            sym::reach(1);
        }
        (Some(_), Some(_)) => sym::reach(2),
        (None, Some(_)) => sym::fail("lazy: fails on input the eager stream accepts"),
        (Some(_), None) => sym::fail("lazy: accepts input the eager stream rejects"),
    }
}

/// Evaluating late, in any order, a clone or the original, changes nothing.
/// param: bits 1-2 how
pub fn t_later(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let how = param >> 1 & 3;
    let ra = yary::reader::from_utf8(s);
    let a = drive(&ra, O_NIL, cap(s.len()));
    let rd = yary::reader::from_utf8(s);
    let mut ev = Vec::with_capacity(32);
    let mut ok = true;
    for x in Events::new(&rd, O_LAZY) {
        match x {
            Ok(e) => ev.push(e),
            Err(_) => ok = false,
        }
        sym::check(ev.len() <= cap(s.len()), "later: more events than the input can justify");
    }
    let n = ev.len();
    sym::check(a.ev.len() <= n, "later: fewer events than the eager stream has");
    if a.err.is_none() {
        sym::check(ok, "later: fails on input the eager stream accepts");
        sym::check(a.ev.len() == n, "later: stream lengths differ");
    }
    let mut bad = n;
    for k in 0..n {
        let i = if how & 1 == 0 { n - 1 - k } else { k };
        let copy = ev[i].clone();
        if let EventData::Scalar(x) = ev[i].data_mut() {
            let lazy = x.content.is_unevaluated();
            if how & 2 == 0 {
                // the clone first, by value, then the original
                let c = match copy.data() {
                    EventData::Scalar(c) => c.content.clone(),
                    _ => sym::fail("later: a clone is another kind of event"),
                };
                sym::check(lazy == c.is_unevaluated(), "later: a clone differs in laziness");
                let c = match c {
                    ScalarLike::Lazy(l) => l.evaluate(),
                    e => e.evaluate(),
                };
                match (c, x.content.evaluate_by_ref()) {
                    (Ok(c), Ok(o)) => sym::check(c == *o, "later: a clone evaluates to something else"),
                    (Err(_), Err(_)) => bad = bad.min(i),
                    _ => sym::fail("later: a clone and its original evaluate differently"),
                }
            } else {
                if x.content.evaluate_by_ref().is_err() {
                    bad = bad.min(i);
                }
                // once more: nothing is left to do
                sym::check(x.content.evaluate_by_ref().is_ok(), "later: an evaluated scalar fails to evaluate");
            }
        }
    }
    for i in 0..a.ev.len() {
        sym::check(bad > i, "later: a scalar of valid text fails to evaluate");
        sym::check(same(ev[i].data(), a.ev[i].data()), "later: an event differs from the eager stream's");
        sym::check(ev[i].start() == a.ev[i].start() && ev[i].end() == a.ev[i].end(), "later: marks differ");
    }
    if a.err.is_some() {
        sym::check(!ok || bad < n, "later: accepts input the eager stream rejects");
    }
    sym::reach(if a.err.is_none() { 1 } else { 2 });
}

const BAD: [(&[u8], &[u8]); 6] = [
    (b"\\q", b"\\n"),
    (b"\\xZZ", b"\\x41"),
    (b"\\uD800", b"\\u0041"),
    (b"\\U00110000", b"\\U00000041"),
    (b"\\x4 ", b"\\x41"),
    (b"\\'", b"\\t"),
];

/// A scalar that cannot be evaluated fails alone, and only when evaluated. The
/// template marks the place of an escape with a byte 1: no escape stands there
/// once, one of the same length the other time. param: bit 0 eager, bit 1
/// streamed, bits 2-4 which escape, bits 8-23 piece size
/// reach 1 accepted but for the escape, 2 rejected anyway
pub fn t_alone(arg: &[u8], param: u64) {
    let t = tmpl::build(arg);
    let (b, g) = BAD[(param >> 2 & 7) as usize % BAD.len()];
    let (mut bad, mut good) = (Vec::with_capacity(t.len() + 10), Vec::with_capacity(t.len() + 10));
    for &x in &t {
        if x == 1 {
            bad.extend_from_slice(b);
            good.extend_from_slice(g);
        } else {
            bad.push(x);
            good.push(x);
        }
    }
    sym::note(&bad);
    let rg = yary::reader::from_utf8(tmpl::text(&good));
    let want = drive(&rg, O_NIL, cap(good.len()));
    if param & 2 != 0 {
        alone(&stream(&bad, param), &want, param & 1 != 0);
    } else {
        alone(&yary::reader::from_utf8(tmpl::text(&bad)), &want, param & 1 != 0);
    }
}
fn alone<R: Read>(rd: &R, want: &Out, eager: bool) {
    if eager {
        let x = drive(rd, O_NIL, want.ev.len());
        sym::check(x.err.is_some(), "alone: an impossible escape is accepted");
        sym::check(!x.deferred, "alone: evaluated at once, yet failed later");
        for (i, e) in x.ev.iter().enumerate() {
            sym::check(same(e.data(), want.ev[i].data()), "alone: an event before the malformed scalar differs");
        }
        sym::reach(if want.err.is_none() { 1 } else { 2 });
        return;
    }
    let (mut ev, mut ok) = (Vec::with_capacity(32), true);
    for x in Events::new(rd, O_LAZY) {
        match x {
            Ok(e) => ev.push(e),
            Err(_) => ok = false,
        }
    }
    if want.err.is_none() {
        sym::check(ok, "alone: a scalar nobody evaluated stopped the stream");
        sym::check(ev.len() == want.ev.len(), "alone: a scalar nobody evaluated changed the number of events");
    }
    let mut failed = 0;
    for i in 0..ev.len().min(want.ev.len()) {
        sym::check(ev[i].start() == want.ev[i].start() && ev[i].end() == want.ev[i].end(), "alone: marks differ");
        if let EventData::Scalar(n) = ev[i].data_mut() {
            let lazy = n.content.is_unevaluated();
            let by_value = n.content.clone().evaluate().is_err();
            let err = n.content.evaluate_by_ref().is_err();
            sym::check(by_value == err, "alone: evaluated by value and by reference differ");
            sym::check(n.content.is_evaluated(), "alone: still unevaluated after evaluation");
            if err {
                sym::check(lazy, "alone: an evaluated scalar failed to evaluate");
                sym::check(scalar(&n.content).is_empty(), "alone: not empty after a failed evaluation");
                failed += 1;
                continue;
            }
        }
        sym::check(same(ev[i].data(), want.ev[i].data()), "alone: another event than the malformed scalar differs");
    }
    if want.err.is_none() {
        sym::check(failed == 1, "alone: the malformed scalar did not fail to evaluate, or others did too");
    }
    sym::reach(if want.err.is_none() { 1 } else { 2 });
}
