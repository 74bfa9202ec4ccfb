//! Oracles that relate the readings of two texts, or of a text and its events.

use crate::generic::cap;
use crate::run::*;
use crate::scalars::{docmark, odd};
use crate::{sym, tmpl};
use yary::event::{flag::*, types::*};

fn lz(param: u64) -> yary::event::flag::Flags {
    if param & 1 != 0 {
        O_LAZY
    } else {
        O_NIL
    }
}
fn mem<'d>(b: &'d [u8], _param: u64) -> impl yary::reader::Read + 'd {
    yary::reader::from_utf8(tmpl::text(b))
}
fn same_err(a: &Out, b: &Out, what: &str) {
    match (a.err, b.err) {
        (None, None) => (),
        (Some(x), Some(y)) => sym::check(x.cat == y.cat, what),
        _ => sym::fail(what),
    }
}

/// Line breaks written another way. param bit 1: CR instead of CR LF
/// reach 1 accepted, 2 rejected
pub fn t_breaks(arg: &[u8], param: u64) {
    let b = tmpl::build(arg);
    let mut c = Vec::with_capacity(2 * b.len());
    for &x in &b {
        sym::assume(x != b'\r');
        if x == b'\n' {
            c.push(b'\r');
            if param & 2 == 0 {
                c.push(b'\n');
            }
        } else {
            c.push(x);
        }
    }
    let (r, s) = (mem(&b, param), mem(&c, param));
    let x = drive(&r, lz(param), cap(c.len()));
    let y = drive(&s, lz(param), cap(c.len()));
    sym::check(x.ev.len() == y.ev.len(), "line breaks: a different number of events");
    for i in 0..x.ev.len() {
        sym::check(same(x.ev[i].data(), y.ev[i].data()), "line breaks: an event differs");
    }
    // an escape cut short by the end of the text may be too short or malformed
    sym::check(x.err.is_none() == y.err.is_none(), "line breaks: accepted with one kind, rejected with another");
    sym::reach(if x.err.is_none() { 1 } else { 2 });
}

/// `t`, every line but the first (`all`: and the first) indented by `k`.
fn indent(t: &[u8], k: usize, all: bool, out: &mut Vec<u8>) {
    for i in 0..t.len() {
        let start = if i == 0 { all } else { t[i - 1] == b'\n' };
        if start && t[i] != b'\n' {
            for _ in 0..k {
                out.push(b' ');
            }
        }
        out.push(t[i]);
    }
}

fn relabel(e: &mut EventData, want: NodeKind) {
    let k = match e {
        EventData::Scalar(n) => &mut n.kind,
        EventData::MappingStart(n) => &mut n.kind,
        EventData::SequenceStart(n) => &mut n.kind,
        _ => return,
    };
    sym::check(*k == want, "nested: the node has the wrong NodeKind");
    *k = NodeKind::Root;
}

/// A document's content moved to another place means the same there.
/// param bits 1..: place
/// reach 1 accepted, 2 rejected
pub fn t_nest(arg: &[u8], param: u64) {
    let place = param >> 1 & 15;
    let mut b = tmpl::build(arg);
    if place == 3 && !b.ends_with(b"\n") {
        b.push(b'\n');
    }
    let r = mem(&b, param);
    let x = drive(&r, lz(param), cap(b.len()));
    for i in 0..b.len() {
        // what is said about lines only holds if only '\n' ends them
        sym::assume(b[i] != b'\r' && b[i] != b'\t' && b[i] != b'%' && !odd(&b, i));
        if i == 0 || b[i - 1] == b'\n' {
            sym::assume(!docmark(&b, i));
        }
        if i + 1 < b.len() && (b[i] == b'|' || b[i] == b'>') {
            let j = if b[i + 1] == b'+' || b[i + 1] == b'-' { i + 2 } else { i + 1 };
            sym::assume(!(j < b.len() && b[j] >= b'0' && b[j] <= b'9'));
        }
    }
    // an alias may be anything but the root, and an empty document has no root
    if x.ev.len() == 2 && x.err.is_some() {
        for &c in &b {
            sym::assume(c != b'*');
        }
    }
    if x.err.is_none() {
        sym::assume(x.ev.len() > 4);
    }
    let mut t = Vec::with_capacity(4 * b.len() + 64);
    // events before and after the node, its kind
    let (pre, post, kind) = match place {
        0 => {
            indent(&b, 2, true, &mut t);
            (0, 0, NodeKind::Root)
        }
        1 => {
            t.extend_from_slice(b"- ");
            indent(&b, 2, false, &mut t);
            (1, 1, NodeKind::Entry)
        }
        2 => {
            t.extend_from_slice(b"k:\n");
            indent(&b, 2, true, &mut t);
            (2, 1, NodeKind::Value)
        }
        3 => {
            t.extend_from_slice(b"? ");
            indent(&b, 2, false, &mut t);
            t.extend_from_slice(b": v");
            (1, 2, NodeKind::Key)
        }
        4 => {
            for _ in 0..12 {
                t.extend_from_slice(b"- ");
            }
            indent(&b, 24, false, &mut t);
            (12, 12, NodeKind::Entry)
        }
        5 => {
            t.extend_from_slice(b"k:\n- ");
            indent(&b, 2, false, &mut t);
            (3, 2, NodeKind::Entry)
        }
        _ => {
            // deep and ragged
            let mut k = 0;
            for _ in 0..6 {
                t.extend_from_slice(b"a:\n");
                k += 1;
                for _ in 0..k {
                    t.push(b' ');
                }
                t.extend_from_slice(b"- ");
                k += 2;
            }
            indent(&b, k, false, &mut t);
            (18, 12, NodeKind::Entry)
        }
    };
    let s = mem(&t, param);
    let mut y = drive(&s, lz(param), cap(t.len()) + 64);
    if x.err.is_some() {
        sym::check(y.err.is_some(), "nested: rejected at the root but accepted in a collection");
        sym::reach(2);
        return;
    }
    sym::check(y.err.is_none(), "nested: accepted at the root but rejected in a collection");
    sym::check(y.ev.len() == x.ev.len() + pre + post, "nested: a different number of events");
    let n = x.ev.len();
    relabel(y.ev[2 + pre].data_mut(), kind);
    for i in 2..n - 2 {
        sym::check(same(x.ev[i].data(), y.ev[i + pre].data()), "nested: an event differs");
    }
    sym::reach(1);
}

/// Documents one after the other are read as each of them alone. The template
/// separates them with a byte 1. param bit 1: separated by '---' instead of '...'
/// reach 1 accepted, 2 rejected
pub fn t_cat(arg: &[u8], param: u64) {
    let b = tmpl::build(arg);
    let mut k = 0;
    while b[k] != 1 {
        k += 1;
    }
    let mut p = b[..k].to_vec();
    let q = b[k + 1..].to_vec();
    if !p.ends_with(b"\n") {
        p.push(b'\n');
    }
    let (rp, rq) = (mem(&p, param), mem(&q, param));
    let x = drive(&rp, lz(param), cap(p.len()));
    sym::assume(x.err.is_none());
    let y = drive(&rq, lz(param), cap(q.len()));
    let blank = |o: &Out| {
        o.ev.len() > 2 && matches!(o.ev[1].data(), EventData::DocumentStart(d) if d.implicit) && matches!(o.ev[2].data(), EventData::DocumentEnd(_))
    };
    sym::assume(!blank(&x) && !blank(&y));
    let dash = param & 2 != 0;
    if dash {
        // the second document must be a bare one
        sym::assume(y.ev.len() > 1 && matches!(y.ev[1].data(), EventData::DocumentStart(d) if d.implicit));
        for i in 0..q.len() {
            sym::assume(q[i] != b'%' && !odd(&q, i));
            // (a '...' before its content would end the document '---' begins)
            sym::assume(!(q[i] == b'.' && (i == 0 || q[i - 1] == b'\n' || q[i - 1] == b'\r') && docmark(&q, i)));
        }
    }
    let mut t = p.clone();
    t.extend_from_slice(if dash { b"---\n" } else { b"...\n" });
    t.extend_from_slice(&q);
    let rt = mem(&t, param);
    let z = drive(&rt, lz(param), cap(t.len()));
    same_err(&y, &z, "documents: accepted alone but not after another, or the other way around");
    let n = x.ev.len() - 1;
    sym::check(z.ev.len() == n + y.ev.len() - 1, "documents: a different number of events");
    for i in 1..n {
        if !dash && i == n - 1 {
            sym::check(matches!(z.ev[i].data(), EventData::DocumentEnd(d) if !d.implicit), "documents: '...' does not end the document");
        } else {
            sym::check(same(x.ev[i].data(), z.ev[i].data()), "documents: an event of the first differs");
        }
    }
    for i in 1..y.ev.len() {
        let (e, f) = (y.ev[i].data(), z.ev[n + i - 1].data());
        if dash && i == 1 {
            match (e, f) {
                (EventData::DocumentStart(g), EventData::DocumentStart(h)) => {
                    sym::check(!h.implicit, "documents: '---' does not start the document");
                    sym::check(same_directives(&g.directives, &h.directives), "documents: directives carried over");
                }
                _ => sym::fail("documents: an event of the second differs"),
            }
        } else {
            sym::check(same(e, f), "documents: an event of the second differs");
        }
    }
    sym::reach(if y.err.is_none() { 1 } else { 2 });
}

/// Marks. reach 1 accepted, 2 rejected
pub fn t_marks(arg: &[u8], param: u64) {
    let b = tmpl::build(arg);
    let r = mem(&b, param);
    let o = drive(&r, lz(param), cap(b.len()));
    let mut last = 0;
    for e in &o.ev {
        let (s, t) = (e.start(), e.end());
        sym::check(s <= t, "marks: an event ends before it starts");
        sym::check(t <= b.len(), "marks: an event ends after the text");
        sym::check(s >= last, "marks: an event starts before the one before it");
        last = s;
        // where the event's text ends
        let z = &b[..t];
        match e.data() {
            EventData::Alias(a) => {
                let n = a.name.as_bytes();
                let k = n.len();
                sym::check(t > k && z[t - k - 1] == b'*' && &z[t - k..] == n, "marks: an alias does not end at its mark");
            }
            EventData::Scalar(n) => {
                let v = scalar(&n.content);
                match v.style() {
                    ScalarStyle::DoubleQuote => sym::check(z.ends_with(b"\""), "marks: a double quoted scalar does not end at its mark"),
                    ScalarStyle::SingleQuote => sym::check(z.ends_with(b"'"), "marks: a single quoted scalar does not end at its mark"),
                    ScalarStyle::Plain => {
                        let v: &str = v;
                        let v = v.as_bytes();
                        if !v.is_empty() {
                            sym::check(t > 0 && z[t - 1] == v[v.len() - 1], "marks: a plain scalar does not end at its mark");
                        }
                    }
                    _ => (),
                }
            }
            _ => (),
        }
    }
    sym::reach(if o.err.is_none() { 1 } else { 2 });
}

/// How errors are classified and handed on. param bit 1: the text is cut short
/// reach 1 syntax, 2 end of text, 3 accepted
pub fn t_err(arg: &[u8], param: u64) {
    let b = tmpl::build(arg);
    let rd = mem(&b, param);
    let mut it = yary::event::Events::new(&rd, lz(param));
    let mut n = 0;
    let e = loop {
        match it.iter().next() {
            None => {
                sym::check(param & 2 == 0, "error: a text that is cut short is accepted");
                return sym::reach(3);
            }
            Some(Err(e)) => break e,
            Some(Ok(mut e)) => {
                if let EventData::Scalar(x) = e.data_mut() {
                    if let Err(e) = x.content.evaluate_by_ref() {
                        break e;
                    }
                }
            }
        }
        n += 1;
        if n > cap(b.len()) {
            sym::fail("event stream longer than the input can justify");
        }
    };
    let x = err(&e);
    if param & 2 != 0 {
        sym::check(x.cat == 3, "error: a text that is cut short is not reported as such");
    }
    match x.cat {
        1 => sym::reach(1),
        3 => {
            // it is the end of the text that is wrong
            let mut open = false;
            for &c in &b {
                open |= c == b'"' || c == b'\'' || c == b'%' || c == b'<';
            }
            sym::check(open, "error: an early end reported where nothing was left open");
            sym::reach(2);
        }
        _ => sym::fail("error: malformed text reported as bad data or a failing source"),
    }
    sym::check(!e.to_string().is_empty(), "error: no message");
    use std::io::ErrorKind::*;
    let want = [Other, InvalidInput, InvalidData, UnexpectedEof][x.cat as usize];
    let io: std::io::Error = e.into();
    sym::check(io.kind() == want, "error: converted to the wrong std::io::ErrorKind");
}
