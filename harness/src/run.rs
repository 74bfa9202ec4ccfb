//! Driving the crate's public API and recording what comes out.

use crate::sym;
use yary::error::Category;
use yary::event::{flag::Flags, types::*, Events};
use yary::reader::Read;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct E {
    pub cat: u8,
    pub ctx: bool,
    pub at: u64,
    pub line: u64,
    pub col: u64,
}
pub fn err(e: &yary::Error) -> E {
    E {
        cat: match e.classify() {
            Category::IO => 0,
            Category::Syntax => 1,
            Category::Data => 2,
            Category::EOF => 3,
        },
        ctx: e.has_context(),
        at: e.at(),
        line: e.line(),
        col: e.column(),
    }
}

pub struct Out<'d> {
    pub ev: Vec<Event<'d>>,
    /// the error that ended the stream, if any
    pub err: Option<E>,
    /// the error came from evaluating a scalar handed out lazily
    pub deferred: bool,
}

/// Drain the stream, evaluating every scalar as it arrives; stop at the first
/// error. `cap` bounds the number of events.
pub fn drive<'d, R: Read>(src: &'d R, fl: Flags, cap: usize) -> Out<'d> {
    let mut ev = Vec::with_capacity(32);
    let mut it = Events::new(src, fl);
    let mut out = None;
    let mut deferred = false;
    for x in it.iter() {
        match x {
            Ok(mut e) => {
                if let EventData::Scalar(n) = e.data_mut() {
                    if let Err(er) = n.content.evaluate_by_ref() {
                        out = Some(err(&er));
                        deferred = true;
                        break;
                    }
                }
                ev.push(e);
                if ev.len() > cap {
                    sym::fail("event stream longer than the input can justify");
                }
            }
            Err(er) => {
                out = Some(err(&er));
                break;
            }
        }
    }
    Out { ev, err: out, deferred }
}

pub fn scalar<'a, 'd: 'a>(s: &'a ScalarLike<'d>) -> &'a Scalar<'d> {
    match s {
        ScalarLike::Eager(s) => s,
        _ => sym::fail("scalar still unevaluated after evaluate_by_ref()"),
    }
}
fn same_node(a: (&Option<Slice>, &Option<(Slice, Slice)>, NodeKind), b: (&Option<Slice>, &Option<(Slice, Slice)>, NodeKind)) -> bool {
    a.2 == b.2
        && match (a.0, b.0) {
            (None, None) => true,
            (Some(x), Some(y)) => **x == **y,
            _ => false,
        }
        && match (a.1, b.1) {
            (None, None) => true,
            (Some(x), Some(y)) => *x.0 == *y.0 && *x.1 == *y.1,
            _ => false,
        }
}
pub fn same_directives(a: &Directives, b: &Directives) -> bool {
    if a.version != b.version || a.tags.len() != b.tags.len() {
        return false;
    }
    for (k, v) in &a.tags {
        let mut hit = false;
        for (q, w) in &b.tags {
            if **k == **q {
                hit = **v == **w;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
/// Same kind of event with the same contents (marks not compared).
pub fn same(a: &EventData, b: &EventData) -> bool {
    use EventData::*;
    match (a, b) {
        (StreamStart(x), StreamStart(y)) => x.encoding == y.encoding,
        (StreamEnd, StreamEnd) | (MappingEnd, MappingEnd) | (SequenceEnd, SequenceEnd) => true,
        (DocumentStart(x), DocumentStart(y)) => x.implicit == y.implicit && same_directives(&x.directives, &y.directives),
        (DocumentEnd(x), DocumentEnd(y)) => x.implicit == y.implicit,
        (Alias(x), Alias(y)) => *x.name == *y.name,
        (Scalar(x), Scalar(y)) => {
            let (p, q) = (scalar(&x.content), scalar(&y.content));
            p.style() == q.style() && **p == **q && same_node((&x.anchor, &x.tag, x.kind), (&y.anchor, &y.tag, y.kind))
        }
        (MappingStart(x), MappingStart(y)) => same_node((&x.anchor, &x.tag, x.kind), (&y.anchor, &y.tag, y.kind)),
        (SequenceStart(x), SequenceStart(y)) => same_node((&x.anchor, &x.tag, x.kind), (&y.anchor, &y.tag, y.kind)),
        _ => false,
    }
}
