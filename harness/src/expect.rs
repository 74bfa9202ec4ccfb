//! Expected event streams.

use crate::run::*;
use crate::sym;
use yary::event::types::*;

#[derive(Clone, Default)]
pub struct Props {
    pub anchor: Option<Vec<u8>>,
    pub tag: Option<(Vec<u8>, Vec<u8>)>,
}
#[derive(Clone)]
pub enum Ex {
    /// implicit?
    Ds(bool),
    /// implicit?, version, tag handles
    Dd(bool, (u8, u8), Vec<(Vec<u8>, Vec<u8>)>),
    De(bool),
    Al(Vec<u8>),
    Sc(ScalarStyle, Vec<u8>, NodeKind, Props),
    Ms(NodeKind, Props),
    Qs(NodeKind, Props),
    Me,
    Qe,
}
use NodeKind::*;

pub fn sc(style: ScalarStyle, v: &[u8], kind: NodeKind) -> Ex {
    Ex::Sc(style, v.to_vec(), kind, Props::default())
}
pub fn plain(v: &[u8], kind: NodeKind) -> Ex {
    sc(ScalarStyle::Plain, v, kind)
}
pub fn ms(k: NodeKind) -> Ex {
    Ex::Ms(k, Props::default())
}
pub fn qs(k: NodeKind) -> Ex {
    Ex::Qs(k, Props::default())
}

fn props(p: &Props, anchor: &Option<Slice>, tag: &Option<(Slice, Slice)>) {
    match (&p.anchor, anchor) {
        (None, None) => (),
        (Some(x), Some(y)) => sym::check(&x[..] == y.as_bytes(), "node carries a different anchor name"),
        (Some(_), None) => sym::fail("node lacks its anchor"),
        (None, Some(_)) => sym::fail("node carries an anchor it was not given"),
    }
    match (&p.tag, tag) {
        (None, None) => (),
        (Some(x), Some(y)) => {
            sym::check(&x.0[..] == y.0.as_bytes(), "tag resolved to a different prefix");
            sym::check(&x.1[..] == y.1.as_bytes(), "tag carries a different suffix");
        }
        (Some(_), None) => sym::fail("node lacks its tag"),
        (None, Some(_)) => sym::fail("node carries a tag it was not given"),
    }
}

/// Compare one event with what is expected of it.
pub fn one(e: &EventData, x: &Ex) {
    match (e, x) {
        (EventData::DocumentStart(d), Ex::Ds(i)) => sym::check(d.implicit == *i, "document start: implicit/explicit confused"),
        (EventData::DocumentStart(d), Ex::Dd(i, v, t)) => {
            sym::check(d.implicit == *i, "document start: implicit/explicit confused");
            sym::check(d.directives.version.major == v.0 && d.directives.version.minor == v.1, "document start: different version");
            sym::check(d.directives.tags.len() == t.len(), "document start: different number of tag handles");
            for (h, p) in t {
                let mut hit = false;
                for (k, w) in &d.directives.tags {
                    hit |= k.as_bytes() == &h[..] && w.as_bytes() == &p[..];
                }
                sym::check(hit, "document start: tag handle missing or with a different prefix");
            }
        }
        (EventData::DocumentEnd(d), Ex::De(i)) => sym::check(d.implicit == *i, "document end: implicit/explicit confused"),
        (EventData::Alias(a), Ex::Al(n)) => sym::check(a.name.as_bytes() == &n[..], "alias has a different name"),
        (EventData::Scalar(n), Ex::Sc(st, v, k, p)) => {
            let s = scalar(&n.content);
            sym::check(s.style() == *st, "scalar has a different style");
            let t: &str = s;
            sym::check(t.len() == v.len(), "scalar has a different length");
            sym::check(t.as_bytes() == &v[..], "scalar has different contents");
            sym::check(n.kind == *k, "scalar has a different NodeKind");
            props(p, &n.anchor, &n.tag);
        }
        (EventData::MappingStart(n), Ex::Ms(k, p)) => {
            sym::check(n.kind == *k, "mapping has a different NodeKind");
            props(p, &n.anchor, &n.tag);
        }
        (EventData::SequenceStart(n), Ex::Qs(k, p)) => {
            sym::check(n.kind == *k, "sequence has a different NodeKind");
            props(p, &n.anchor, &n.tag);
        }
        (EventData::MappingEnd, Ex::Me) | (EventData::SequenceEnd, Ex::Qe) => (),
        _ => sym::fail("event of a different kind than expected"),
    }
}

/// The stream must begin with StreamStart and these events; with `all`, it must
/// also end after them.
pub fn stream(o: &Out, xs: &[Ex], all: bool) {
    sym::check(!o.ev.is_empty() && matches!(o.ev[0].data(), EventData::StreamStart(_)), "stream does not begin with StreamStart");
    for (i, x) in xs.iter().enumerate() {
        match o.ev.get(i + 1) {
            Some(e) => one(e.data(), x),
            None if o.err.is_some() => sym::fail("valid input rejected"),
            None => sym::fail("the stream ends early"),
        }
    }
    if all {
        if o.err.is_some() {
            sym::fail("valid input rejected at its end");
        }
        match o.ev.get(xs.len() + 1) {
            Some(e) if matches!(e.data(), EventData::StreamEnd) => (),
            Some(_) => sym::fail("more events than expected"),
            None => sym::fail("stream lacks StreamEnd"),
        }
        sym::check(o.ev.len() == xs.len() + 2, "events after StreamEnd");
    }
}

/// Surroundings a node can be put in.
pub struct Ctx {
    pub pre: &'static [u8],
    pub post: &'static [u8],
    /// fewest columns a continuation line of a flow scalar must be indented
    pub min: usize,
    /// indentation of the parent block node, -1 at the root
    pub n: i32,
    pub flow: bool,
    pub key: bool,
    pub kind: NodeKind,
}
pub fn ctx(k: u64) -> Ctx {
    let c = |pre: &'static str, post: &'static str, min, n, flow, key, kind| Ctx { pre: pre.as_bytes(), post: post.as_bytes(), min, n, flow, key, kind };
    match k & 15 {
        0 => c("", "", 0, -1, false, false, Root),
        1 => c("- ", "", 1, 0, false, false, Entry),
        2 => c("a: ", "", 1, 0, false, false, Value),
        3 => c("[", "]", 0, -1, true, false, Entry),
        4 => c("{a: ", "}", 0, -1, true, false, Value),
        5 => c("", ": b", 0, -1, false, true, Key),
        6 => c("{", ": b}", 0, -1, true, true, Key),
        7 => c("? ", "\n: b", 1, 0, false, false, Key),
        8 => c("a:\n  - b: ", "\n  - c", 5, 4, false, false, Value),
        9 => c("- [", ", c]", 1, 0, true, false, Entry),
        10 => c("--- ", "\n...", 0, -1, false, false, Root),
        11 => c("a:\n  b: ", "\nc: d", 3, 2, false, false, Value),
        _ => c("b:\n  - ", ": c\nd: e", 5, 2, false, true, Key),
    }
}
/// What the context's text amounts to around the node `x`.
pub fn within(k: u64, x: Ex) -> Vec<Ex> {
    let mut v = Vec::with_capacity(20);
    let k = k & 15;
    v.push(Ex::Ds(k != 10));
    match k {
        0 => v.push(x),
        1 | 3 => v.extend([qs(Root), x, Ex::Qe]),
        2 | 4 => v.extend([ms(Root), plain(b"a", Key), x, Ex::Me]),
        5 | 6 | 7 => v.extend([ms(Root), x, plain(b"b", Value), Ex::Me]),
        8 => v.extend([ms(Root), plain(b"a", Key), qs(Value), ms(Entry), plain(b"b", Key), x, Ex::Me, plain(b"c", Entry), Ex::Qe, Ex::Me]),
        9 => v.extend([qs(Root), qs(Entry), x, plain(b"c", Entry), Ex::Qe, Ex::Qe]),
        10 => v.push(x),
        11 => v.extend([ms(Root), plain(b"a", Key), ms(Value), plain(b"b", Key), x, Ex::Me, plain(b"c", Key), plain(b"d", Value), Ex::Me]),
        _ => v.extend([
            ms(Root),
            plain(b"b", Key),
            qs(Value),
            ms(Entry),
            x,
            plain(b"c", Value),
            Ex::Me,
            Ex::Qe,
            plain(b"d", Key),
            plain(b"e", Value),
            Ex::Me,
        ]),
    }
    v.push(Ex::De(k != 10));
    v
}
/// index of the node in what `within` returns
pub fn place(k: u64) -> usize {
    match k & 15 {
        0 | 10 => 1,
        1 | 3 | 5 | 6 | 7 => 2,
        2 | 4 | 9 => 3,
        8 => 6,
        _ => 5,
    }
}
