//! Scalar contents against reference readings of YAML 1.2.2, chapters 5.7, 6.5,
//! 7.3 and 8.1, written over bytes.

use crate::expect::*;
use crate::run::*;
use crate::{generic::cap, sym, tmpl};
use yary::event::{flag::*, types::*};

pub enum Ref {
    Val(Vec<u8>),
    Bad,
    /// not (only) a scalar of the kind asked about, or outside the property
    Skip,
}
use Ref::*;

pub fn white(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
pub fn brk(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}
pub fn blank_at(b: &[u8], i: usize) -> bool {
    i >= b.len() || white(b[i]) || brk(b[i])
}
/// index after the line break at i
pub fn past(b: &[u8], i: usize) -> usize {
    if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
        i + 2
    } else {
        i + 1
    }
}
/// characters the properties do not speak about: control characters, the
/// YAML 1.1 line breaks, byte order marks
pub fn odd(b: &[u8], i: usize) -> bool {
    let c = b[i];
    if c < 0x20 {
        return !(white(c) || brk(c));
    }
    if c < 0x7F {
        return false;
    }
    if c == 0x7F || c == 0xC2 {
        return c == 0x7F || b[i + 1] < 0xA0;
    }
    if c == 0xE2 {
        return b[i + 1] == 0x80 && (b[i + 2] == 0xA8 || b[i + 2] == 0xA9);
    }
    if c == 0xEF {
        return (b[i + 1] == 0xBB && b[i + 2] == 0xBF) || (b[i + 1] == 0xBF && b[i + 2] >= 0xBE);
    }
    false
}
pub fn docmark(b: &[u8], i: usize) -> bool {
    i + 3 <= b.len()
        && ((b[i] == b'-' && b[i + 1] == b'-' && b[i + 2] == b'-') || (b[i] == b'.' && b[i + 1] == b'.' && b[i + 2] == b'.'))
        && blank_at(b, i + 3)
}

/// Line folding at a break (i points at it, trailing white space already
/// dropped): index of the next content, number of breaks, Err: outside.
fn fold(b: &[u8], mut i: usize, c: &Ctx, quote: bool) -> Result<(usize, usize), Ref> {
    let mut n = 0;
    loop {
        i = past(b, i);
        n += 1;
        let at = i;
        while i < b.len() && b[i] == b' ' {
            i += 1;
        }
        let ind = i - at;
        while i < b.len() && white(b[i]) {
            i += 1;
        }
        if i < b.len() && brk(b[i]) {
            continue;
        }
        // (within quotes, the text goes on with the closing quote)
        if i == at && docmark(b, i) && !(quote && i + 3 == b.len()) {
            return Err(Bad);
        }
        if ind < c.min {
            return Err(Skip);
        }
        return Ok((i, n));
    }
}

pub fn hexv(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'f' => Some((c - b'a' + 10) as u32),
        b'A'..=b'F' => Some((c - b'A' + 10) as u32),
        _ => None,
    }
}

pub fn utf8(v: u32, o: &mut Vec<u8>) {
    if v < 0x80 {
        o.push(v as u8);
    } else if v < 0x800 {
        o.push(0xC0 | (v >> 6) as u8);
        o.push(0x80 | (v & 63) as u8);
    } else if v < 0x10000 {
        o.push(0xE0 | (v >> 12) as u8);
        o.push(0x80 | (v >> 6 & 63) as u8);
        o.push(0x80 | (v & 63) as u8);
    } else {
        o.push(0xF0 | (v >> 18) as u8);
        o.push(0x80 | (v >> 12 & 63) as u8);
        o.push(0x80 | (v >> 6 & 63) as u8);
        o.push(0x80 | (v & 63) as u8);
    }
}

/// The text between double or single quotes.
pub fn quoted(b: &[u8], c: &Ctx, double: bool) -> Ref {
    let mut o = Vec::with_capacity(b.len() + 8);
    let mut i = 0;
    while i < b.len() {
        let ch = b[i];
        if odd(b, i) {
            return Skip;
        }
        if white(ch) || brk(ch) {
            let at = i;
            while i < b.len() && white(b[i]) {
                i += 1;
            }
            if i < b.len() && brk(b[i]) {
                if c.key {
                    return Skip;
                }
                match fold(b, i, c, true) {
                    Err(r) => return r,
                    Ok((j, n)) => {
                        i = j;
                        if n == 1 {
                            o.push(b' ');
                        }
                        for _ in 1..n {
                            o.push(b'\n');
                        }
                    }
                }
            } else {
                o.extend_from_slice(&b[at..i]);
            }
            continue;
        }
        if !double {
            if ch == b'\'' {
                if i + 1 < b.len() && b[i + 1] == b'\'' {
                    o.push(b'\'');
                    i += 2;
                    continue;
                }
                return Skip;
            }
            o.push(ch);
            i += 1;
            continue;
        }
        if ch == b'"' {
            return Skip;
        }
        if ch != b'\\' {
            o.push(ch);
            i += 1;
            continue;
        }
        if i + 1 >= b.len() {
            return Skip;
        }
        let e = b[i + 1];
        let v: u32 = match e {
            b'0' => 0,
            b'a' => 7,
            b'b' => 8,
            b't' | b'\t' => 9,
            b'n' => 10,
            b'v' => 11,
            b'f' => 12,
            b'r' => 13,
            b'e' => 27,
            b' ' => 32,
            b'"' => 34,
            b'/' => 47,
            b'\\' => 92,
            b'N' => 0x85,
            b'_' => 0xA0,
            b'L' => 0x2028,
            b'P' => 0x2029,
            b'x' | b'u' | b'U' => {
                let n = match e {
                    b'x' => 2,
                    b'u' => 4,
                    _ => 8,
                };
                if i + 2 + n > b.len() {
                    return Bad;
                }
                let mut v = 0u32;
                for k in 0..n {
                    match hexv(b[i + 2 + k]) {
                        Some(d) => v = v << 4 | d,
                        None => return Bad,
                    }
                }
                if v > 0x10FFFF || (0xD800 <= v && v <= 0xDFFF) {
                    return Bad;
                }
                utf8(v, &mut o);
                i += 2 + n;
                continue;
            }
            _ if brk(e) => {
                if c.key {
                    return Skip;
                }
                match fold(b, i + 1, c, true) {
                    Err(r) => return r,
                    Ok((j, n)) => {
                        i = j;
                        for _ in 1..n {
                            o.push(b'\n');
                        }
                    }
                }
                continue;
            }
            _ => return if odd(b, i + 1) { Skip } else { Bad },
        };
        utf8(v, &mut o);
        i += 2;
    }
    Val(o)
}

pub fn flowind(c: u8) -> bool {
    matches!(c, b',' | b'[' | b']' | b'{' | b'}')
}

/// The text of a whole plain scalar.
pub fn plainref(b: &[u8], c: &Ctx) -> Ref {
    let mut o = Vec::with_capacity(b.len());
    if b.is_empty() || white(b[0]) || brk(b[0]) {
        return Skip;
    }
    match b[0] {
        b'-' | b'?' | b':' => {
            // (in flow collections the crate reads a leading ':' as YAML 1.1 does)
            if blank_at(b, 1) || (c.flow && (b[0] == b':' || flowind(b[1]))) {
                return Skip;
            }
        }
        b'@' | b'`' => return Bad,
        b'%' => return if c.pre.is_empty() { Skip } else { Bad },
        b',' | b'[' | b']' | b'{' | b'}' | b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'\'' | b'"' => return Skip,
        _ => {}
    }
    if c.pre.is_empty() && docmark(b, 0) {
        return Skip;
    }
    let mut i = 0;
    while i < b.len() {
        let ch = b[i];
        if odd(b, i) {
            return Skip;
        }
        if white(ch) || brk(ch) {
            let at = i;
            while i < b.len() && white(b[i]) {
                i += 1;
            }
            if i >= b.len() {
                break;
            }
            if brk(b[i]) {
                if c.key {
                    return Skip;
                }
                match fold(b, i, c, false) {
                    // a document marker or less indentation ends the scalar
                    Err(_) => return Skip,
                    Ok((j, n)) => {
                        i = j;
                        if i >= b.len() {
                            break;
                        }
                        if n == 1 {
                            o.push(b' ');
                        }
                        for _ in 1..n {
                            o.push(b'\n');
                        }
                    }
                }
            } else {
                o.extend_from_slice(&b[at..i]);
            }
            if b[i] == b'#' {
                return Skip;
            }
            continue;
        }
        if ch == b':' {
            if blank_at(b, i + 1) || (c.flow && flowind(b[i + 1])) {
                return Skip;
            }
        }
        if c.flow && flowind(ch) {
            return Skip;
        }
        o.push(ch);
        i += 1;
    }
    Val(o)
}

/// A block scalar, from its header on: value and where its text ends.
pub fn blockref(b: &[u8], c: &Ctx) -> (Ref, usize) {
    let folded = b[0] == b'>';
    let mut i = 1;
    let (mut chomp, mut ind) = (0u8, 0u8);
    // header
    for _ in 0..2 {
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') && chomp == 0 {
            chomp = b[i];
            i += 1;
        } else if i < b.len() && b[i] >= b'1' && b[i] <= b'9' && ind == 0 {
            ind = b[i] - b'0';
            i += 1;
        }
    }
    // the crate documents that it ignores an indentation indicator of 0
    if i < b.len() && b[i] == b'0' && ind == 0 {
        return (Skip, 0);
    }
    let at = i;
    while i < b.len() && white(b[i]) {
        i += 1;
    }
    if i < b.len() && b[i] == b'#' {
        if i == at {
            return (Skip, 0);
        }
        while i < b.len() && !brk(b[i]) {
            if odd(b, i) {
                return (Skip, 0);
            }
            i += 1;
        }
    }
    if i < b.len() {
        if odd(b, i) {
            return (Skip, 0);
        }
        if !brk(b[i]) {
            return (Bad, 0);
        }
        i = past(b, i);
    }
    let least = (c.n + 1) as usize;
    // indentation
    let mut indent = least;
    let mut deepest = 0;
    if ind > 0 {
        indent = if c.n < 0 { ind as usize } else { c.n as usize + ind as usize };
    } else {
        let mut j = i;
        loop {
            let at = j;
            while j < b.len() && b[j] == b' ' {
                j += 1;
            }
            let n = j - at;
            if j >= b.len() {
                // only empty lines
                indent = least.max(deepest).max(n);
                break;
            }
            if brk(b[j]) {
                deepest = deepest.max(n);
                j = past(b, j);
                continue;
            }
            if odd(b, j) {
                return (Skip, 0);
            }
            if n < least {
                // ends at once
                if b[j] == b'\t' {
                    return (Skip, 0);
                }
                indent = least.max(deepest);
                break;
            }
            if deepest > n {
                // YAML forbids deeper indented leading empty lines
                return (Skip, 0);
            }
            indent = n;
            break;
        }
    }
    let mut o = Vec::with_capacity(b.len());
    let mut pending = 0usize; // line breaks not written yet
    let mut any = false; // a content line was seen
    let mut prev_spaced = false;
    let mut end = b.len();
    let mut ended_with_break = true;
    while i < b.len() {
        let at = i;
        while i < b.len() && b[i] == b' ' && i - at < indent {
            i += 1;
        }
        if i >= b.len() {
            if i > at {
                // spaces without a line break at the very end
                return (if chomp == b'+' { Skip } else { finish(o, chomp, any, pending, ended_with_break) }, b.len());
            }
            break;
        }
        if brk(b[i]) {
            // empty line
            pending += 1;
            i = past(b, i);
            continue;
        }
        if i - at < indent {
            if b[i] == b'\t' || odd(b, i) {
                return (Skip, 0);
            }
            end = at;
            break;
        }
        if indent == 0 && docmark(b, i) {
            end = at;
            break;
        }
        let spaced = white(b[i]);
        if !any {
            for _ in 0..pending {
                o.push(b'\n');
            }
        } else if folded && !prev_spaced && !spaced {
            if pending == 1 {
                o.push(b' ');
            }
            for _ in 1..pending {
                o.push(b'\n');
            }
        } else {
            for _ in 0..pending {
                o.push(b'\n');
            }
        }
        while i < b.len() && !brk(b[i]) {
            if odd(b, i) {
                return (Skip, 0);
            }
            o.push(b[i]);
            i += 1;
        }
        any = true;
        prev_spaced = spaced;
        if i < b.len() {
            pending = 1;
            ended_with_break = true;
            i = past(b, i);
        } else {
            pending = 0;
            ended_with_break = false;
        }
    }
    (finish(o, chomp, any, pending, ended_with_break), end)
}
fn finish(mut o: Vec<u8>, chomp: u8, any: bool, pending: usize, broke: bool) -> Ref {
    match chomp {
        b'-' => {}
        b'+' => {
            for _ in 0..pending {
                o.push(b'\n');
            }
        }
        _ => {
            if any && broke {
                o.push(b'\n');
            }
        }
    }
    Val(o)
}

/// param: bits 0-3 context, bit 4 lazy, bits 5-6 what:
/// 0 double quoted, 1 single quoted, 2 plain, 3 block; bit 7: must borrow
pub fn t_scalar(arg: &[u8], param: u64) {
    let body = tmpl::build(arg);
    let c = ctx(param);
    let what = param >> 5 & 3;
    let mut whole = true;
    let r = match what {
        0 => quoted(&body, &c, true),
        1 => quoted(&body, &c, false),
        2 => plainref(&body, &c),
        _ => {
            let mut b = body.clone();
            if !c.post.is_empty() {
                b.push(b'\n');
            }
            let (r, w) = blockref(&b, &c);
            whole = w == b.len();
            r
        }
    };
    if let Skip = r {
        sym::assume(false);
    }
    let mut t = Vec::with_capacity(body.len() + 40);
    t.extend_from_slice(c.pre);
    let q: &[u8] = match what {
        0 => b"\"",
        1 => b"'",
        _ => b"",
    };
    t.extend_from_slice(q);
    t.extend_from_slice(&body);
    t.extend_from_slice(q);
    t.extend_from_slice(c.post);
    sym::note(&t);
    let s = tmpl::text(&t);
    let rd = yary::reader::from_utf8(s);
    let out = drive(&rd, if param >> 4 & 1 != 0 { O_LAZY } else { O_NIL }, cap(s.len()));
    match r {
        Val(v) => {
            let style = match what {
                0 => ScalarStyle::DoubleQuote,
                1 => ScalarStyle::SingleQuote,
                2 => ScalarStyle::Plain,
                _ => {
                    if body[0] == b'>' {
                        ScalarStyle::Folded
                    } else {
                        ScalarStyle::Literal
                    }
                }
            };
            let xs = within(param, sc(style, &v, c.kind));
            if whole {
                stream(&out, &xs, true);
            } else {
                let n = place(param);
                stream(&out, &xs[..=n], false);
            }
            if param >> 7 & 1 != 0 && v == body && !v.is_empty() && (what < 2 || what == 2 && (c.flow || c.key)) {
                // nothing to unescape or fold: no reason to copy
                let n = place(param);
                if let EventData::Scalar(x) = out.ev[n + 1].data() {
                    let at = t.as_ptr() as usize + c.pre.len() + q.len();
                    match scalar(&x.content).data() {
                        yary::event::types::Slice::Borrowed(b) => {
                            sym::check(b.as_ptr() as usize == at, "borrow: scalar borrowed from another place of the input")
                        }
                        _ => sym::fail("borrow: scalar that appears verbatim in the input was copied"),
                    }
                }
                sym::reach(4);
            }
            sym::reach(if v.is_empty() { 1 } else { 2 });
        }
        _ => {
            if out.err.is_none() {
                sym::fail("invalid scalar accepted");
            }
            sym::reach(3);
        }
    }
}
