//! Readers: streaming sources against the in-memory reader, failing sources,
//! byte slices, borrowing.

use crate::generic::cap;
use crate::run::*;
use crate::{sym, tmpl};
use std::io;
use yary::event::{flag::*, types::*, Events};


/// A source that hands out `data` in pieces and may misbehave.
pub struct Src {
    pub data: Vec<u8>,
    pub at: usize,
    /// most bytes per call, 0: as many as asked for
    pub piece: usize,
    pub calls: usize,
    /// the call that fails
    pub fail: usize,
    pub kind: io::ErrorKind,
    /// every nth call is interrupted, 0: none
    pub intr: usize,
    /// fails instead of reporting the end of the data
    pub fail_at_end: bool,
    /// position in the data from which on every call fails
    pub fail_from: usize,
}
impl Src {
    pub fn new(data: &[u8]) -> Self {
        Src {
            data: data.to_vec(),
            at: 0,
            piece: 0,
            calls: 0,
            fail: usize::MAX,
            kind: io::ErrorKind::Other,
            intr: 0,
            fail_at_end: false,
            fail_from: usize::MAX,
        }
    }
}
impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.intr > 0 && k % self.intr == self.intr - 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if k >= self.fail || self.at >= self.fail_from {
            return Err(self.kind.into());
        }
        let mut n = (self.data.len() - self.at).min(buf.len());
        if self.piece > 0 {
            n = n.min(self.piece);
        }
        if self.fail_from < self.at + n {
            n = self.fail_from - self.at;
        }
        if n == 0 && !buf.is_empty() && self.fail_at_end {
            return Err(self.kind.into());
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub fn agree(a: &Out, b: &Out, lazy: bool) {
    for i in 0..a.ev.len().min(b.ev.len()) {
        sym::check(same(a.ev[i].data(), b.ev[i].data()), "streamed: events differ from those of the same text in memory");
        sym::check(
            a.ev[i].start() == b.ev[i].start() && a.ev[i].end() == b.ev[i].end(),
            "streamed: event marks differ from those of the same text in memory",
        );
    }
    sym::check(a.err.is_some() || b.err.is_none(), "streamed: rejects text that is accepted in memory");
    sym::check(a.err.is_none() || b.err.is_some(), "streamed: accepts text that is rejected in memory");
    sym::check(a.ev.len() == b.ev.len(), "streamed: different number of events");
    let _ = lazy;
    if let (Some(x), Some(y)) = (a.err, b.err) {
        sym::check(x == y, "streamed: a different error than for the same text in memory");
    }
}

fn flags(param: u64) -> Flags {
    if param & 1 != 0 {
        O_LAZY
    } else {
        O_NIL
    }
}

/// Streaming equals in memory. param: bit 0 lazy; bits 8-23 piece size;
/// bits 24-31 interrupt every nth call
pub fn t_chunk(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let ra = yary::reader::from_utf8(s);
    let mut src = Src::new(&buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    src.intr = (param >> 24 & 0xFF) as usize;
    let rb = yary::reader::from_read(src);
    let a = drive(&ra, flags(param), cap(s.len()));
    let b = drive(&rb, flags(param), cap(s.len()));
    agree(&a, &b, param & 1 != 0);
    sym::reach(if a.err.is_none() { 1 } else { 2 });
}

/// Events are kept, unevaluated, until the reader has seen everything.
pub fn t_hold(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let mut src = Src::new(&buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    let rd = yary::reader::from_read(src);
    let mut ev = Vec::with_capacity(16);
    let mut ok = true;
    {
        let mut it = Events::new(&rd, flags(param));
        for x in it.iter() {
            match x {
                Ok(e) => ev.push(e),
                Err(_) => {
                    ok = false;
                    break;
                }
            }
            if ev.len() > cap(s.len()) {
                sym::assume(false);
            }
        }
        // the event iterator is gone; the events borrow from the reader alone
    }
    let rm = yary::reader::from_utf8(s);
    let m = drive(&rm, O_NIL, cap(s.len()));
    let n = if m.deferred || m.err.is_some() { m.ev.len().min(ev.len()) } else { ev.len() };
    if ok {
        sym::check(m.err.is_some() || m.ev.len() == ev.len(), "held: different number of events");
    }
    for i in (0..n).rev() {
        if let EventData::Scalar(x) = ev[i].data_mut() {
            if x.content.evaluate_by_ref().is_err() {
                sym::fail("held: a scalar of valid text fails to evaluate later");
            }
        }
    }
    for i in 0..n {
        sym::check(same(ev[i].data(), m.ev[i].data()), "held: an event's contents changed or differ from the text's");
    }
    sym::reach(if ok { 1 } else { 2 });
}

/// Counts what is read from the source.
struct Counted(Src, std::rc::Rc<std::cell::Cell<(usize, usize)>>);
impl io::Read for Counted {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = self.0.read(buf);
        self.1.set((self.0.at, self.0.calls));
        r
    }
}

/// The source is read as the events are asked for: not before, not after, and
/// not much further than the text of the next tokens. param: bit 0 lazy, bit 1
/// the source fails at its end, bits 8-23 piece size
/// reach 1 ended, 2 failed, 3 an event came with more than half the text unread
pub fn t_pull(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let rm = yary::reader::from_utf8(s);
    let m = drive(&rm, O_NIL, cap(s.len()));
    let mut src = Src::new(&buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    src.fail_at_end = param & 2 != 0;
    let n = std::rc::Rc::new(std::cell::Cell::new((0, 0)));
    let rd = yary::reader::from_read(Counted(src, n.clone()));
    let mut it = Events::new(&rd, flags(param));
    let mut far = false;
    {
        let mut i = it.iter();
        sym::check(n.get().1 == 0, "pull: the source is read before an event is asked for");
        let mut k = 0;
        let end = loop {
            match i.next() {
                None => break 1,
                Some(Err(_)) => break 2,
                Some(Ok(e)) => {
                    k += 1;
                    sym::check(k <= cap(s.len()), "pull: more events than the input can justify");
                    // the few tokens it takes to tell keys from other nodes are
                    // behind this event's text
                    let (mut j, mut to, mut more) = (k, s.len(), 3);
                    while j < m.ev.len() {
                        if m.ev[j].start() > e.end() {
                            more -= 1;
                            if more == 0 {
                                to = m.ev[j].end();
                                break;
                            }
                        }
                        j += 1;
                    }
                    let at = n.get().0;
                    sym::check(at <= 4 * to + 32768, "pull: the source is read far beyond what the event needs");
                    far |= at < s.len() / 2;
                }
            }
        };
        let was = n.get();
        for _ in 0..3 {
            sym::check(i.next().is_none(), "pull: an event after the end");
        }
        sym::check(n.get() == was, "pull: the source is read after the end");
        sym::reach(end);
    }
    sym::check(it.iter().next().is_none(), "pull: an event after the end");
    if far {
        sym::reach(3);
    }
}

/// A failing source. param: bit 0 lazy, bits 8-23 piece size
/// fails at a symbolic position, or at the end instead of reporting it; bit 3:
/// one kind of error only; bits 24-31: how far from the end
pub fn t_iofail(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let mut src = Src::new(&buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    let kinds = [
        io::ErrorKind::Other,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::InvalidData,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::PermissionDenied,
    ];
    let k = if param >> 3 & 1 != 0 { 3 } else { sym::choose(0, kinds.len() as u8 - 1) as usize };
    let span = match param >> 24 & 0xFF {
        0 => 200,
        n => n as usize,
    };
    src.kind = kinds[k];
    match param >> 1 & 3 {
        0 => src.fail_at_end = true,
        1 => src.fail_from = s.len() - sym::choose(0, (s.len() - 1).min(span) as u8) as usize - 1,
        _ => src.fail = sym::choose(0, 3) as usize,
    }
    let rd = yary::reader::from_read(src);
    let rm = yary::reader::from_utf8(s);
    let m = drive(&rm, flags(param), cap(s.len()));
    let mut it = Events::new(&rd, flags(param));
    let mut n = 0;
    loop {
        match it.iter().next() {
            None => sym::fail("io: the stream ends as if nothing had failed"),
            Some(Ok(mut e)) => {
                if let EventData::Scalar(x) = e.data_mut() {
                    if x.content.evaluate_by_ref().is_err() {
                        sym::check(m.err.is_some() && m.ev.len() == n, "io: scalar fails to evaluate");
                        sym::reach(3);
                        return;
                    }
                }
                if n >= m.ev.len() {
                    sym::fail("io: more events than the text has");
                }
                sym::check(same(e.data(), m.ev[n].data()), "io: events before the failure are not those of the text");
                sym::check(!matches!(e.data(), EventData::StreamEnd), "io: a failing source's stream is reported complete");
                n += 1;
            }
            Some(Err(e)) => {
                let x = err(&e);
                if x.cat == 0 {
                    let back: io::Error = e.into();
                    sym::check(back.kind() == kinds[k], "io: the source's error is not handed back");
                    sym::reach(1);
                } else {
                    // only for an error that the text itself has
                    sym::check(m.err.is_some() && m.ev.len() == n, "io: failure of the source reported as something else");
                    sym::reach(2);
                }
                break;
            }
        }
    }
    for _ in 0..2 {
        sym::check(it.iter().next().is_none(), "io: the stream goes on after the failure");
    }
}

/// Is `b` valid UTF-8 (RFC 3629)?
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let t = |k: usize, lo: u8, hi: u8| i + k < b.len() && b[i + k] >= lo && b[i + k] <= hi;
        if c < 0x80 {
            i += 1;
        } else if c >= 0xC2 && c <= 0xDF {
            if !t(1, 0x80, 0xBF) {
                return false;
            }
            i += 2;
        } else if c >= 0xE0 && c <= 0xEF {
            let lo = if c == 0xE0 { 0xA0 } else { 0x80 };
            let hi = if c == 0xED { 0x9F } else { 0xBF };
            if !t(1, lo, hi) || !t(2, 0x80, 0xBF) {
                return false;
            }
            i += 3;
        } else if c >= 0xF0 && c <= 0xF4 {
            let lo = if c == 0xF0 { 0x90 } else { 0x80 };
            let hi = if c == 0xF4 { 0x8F } else { 0xBF };
            if !t(1, lo, hi) || !t(2, 0x80, 0xBF) || !t(3, 0x80, 0xBF) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// Arbitrary bytes. param: bit 0 lazy, bit 1 streamed, bits 8-23 piece size
pub fn t_utf8(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let ok = valid(&buf);
    if param & 2 == 0 {
        match yary::reader::try_from_bytes(&buf) {
            Ok(r) => {
                sym::check(ok, "utf8: accepts bytes that are not UTF-8");
                let s = unsafe { std::str::from_utf8_unchecked(&buf) };
                let rm = yary::reader::from_utf8(s);
                let a = drive(&r, flags(param), cap(s.len()));
                let b = drive(&rm, flags(param), cap(s.len()));
                agree(&b, &a, false);
                sym::reach(1);
            }
            Err(e) => {
                sym::check(!ok, "utf8: rejects valid UTF-8");
                let x = err(&e);
                sym::check(x.cat == 2, "utf8: invalid bytes are not reported as a data error");
                sym::reach(2);
            }
        }
        return;
    }
    let mut src = Src::new(&buf);
    src.piece = (param >> 8 & 0xFFFF) as usize;
    let rd = yary::reader::from_read(src);
    let a = drive(&rd, flags(param), cap(buf.len()));
    if ok {
        let rm = yary::reader::from_utf8(unsafe { std::str::from_utf8_unchecked(&buf) });
        let b = drive(&rm, flags(param), cap(buf.len()));
        agree(&b, &a, false);
        sym::reach(1);
    } else {
        sym::check(a.err.is_some(), "utf8: a stream that is not UTF-8 is accepted");
        if param & 4 != 0 {
            sym::check(a.err.map_or(false, |e| e.cat == 2), "utf8: invalid bytes in a stream are not reported as a data error");
        }
        sym::reach(2);
    }
}

/// What the in-memory reader hands out borrows from the input where it can.
pub fn t_borrow(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let rd = yary::reader::from_utf8(s);
    let o = drive(&rd, flags(param), cap(s.len()));
    let (lo, hi) = (s.as_ptr() as usize, s.as_ptr() as usize + s.len());
    let within = |x: &Slice| {
        if let Slice::Borrowed(b) = x {
            if !b.is_empty() {
                let p = b.as_ptr() as usize;
                return p >= lo && p + b.len() <= hi;
            }
        }
        true
    };
    let borrowed = |x: &Slice| matches!(x, Slice::Borrowed(_)) && within(x);
    for e in &o.ev {
        match e.data() {
            EventData::Scalar(n) => {
                let c = scalar(&n.content);
                sym::check(within(c.data()), "borrow: borrowed scalar lies outside of the input");
                if let Slice::Borrowed(_) = c.data() {
                    if !c.is_empty() {
                        sym::reach(1);
                    }
                }
                if let Some(a) = &n.anchor {
                    sym::check(borrowed(a), "borrow: anchor name copied");
                }
            }
            EventData::Alias(a) => sym::check(borrowed(&a.name), "borrow: alias name copied"),
            EventData::MappingStart(n) => {
                if let Some(a) = &n.anchor {
                    sym::check(borrowed(a), "borrow: anchor name copied");
                }
            }
            EventData::SequenceStart(n) => {
                if let Some(a) = &n.anchor {
                    sym::check(borrowed(a), "borrow: anchor name copied");
                }
            }
            _ => {}
        }
    }
    sym::reach(2);
}

/// However the iterators are used, the events are the same.
pub fn t_iter(arg: &[u8], param: u64) {
    let buf = tmpl::build(arg);
    let s = tmpl::text(&buf);
    let ra = yary::reader::from_utf8(s);
    let rb = yary::reader::from_utf8(s);
    let how = param >> 1 & 3;
    fn step<'d, I: Iterator<Item = Result<Event<'d>, yary::Error>>>(a: Option<Result<Event<'d>, yary::Error>>, i: &mut I, done: &mut bool) {
        let b = i.next();
        match (a, b) {
            (None, None) => *done = true,
            (Some(Ok(mut x)), Some(Ok(mut y))) => {
                if let (EventData::Scalar(p), EventData::Scalar(q)) = (x.data_mut(), y.data_mut()) {
                    sym::check(p.content.is_evaluated() == q.content.is_evaluated(), "iteration: laziness differs");
                    let (p, q) = (p.content.evaluate_by_ref().is_err(), q.content.evaluate_by_ref().is_err());
                    sym::check(p == q, "iteration: evaluation differs");
                }
                sym::check(same(x.data(), y.data()), "iteration: events depend on how the iterator is used");
                sym::check(x.start() == y.start() && x.end() == y.end(), "iteration: marks depend on how the iterator is used");
            }
            (Some(Err(x)), Some(Err(y))) => sym::check(err(&x) == err(&y), "iteration: errors depend on how the iterator is used"),
            _ => sym::fail("iteration: the number of events depends on how the iterator is used"),
        }
    }
    // the ways to name flags and to begin are equivalent
    let fl = flags(param);
    let same_flags = [Flags::new() | fl, fl.nil() | fl, if param & 1 != 0 { fl.no_lazy().lazy() } else { fl.lazy().no_lazy() }, Flags::default().union(fl)];
    for f in same_flags {
        sym::check(f == fl, "flags: equal sets differ");
    }
    let mut a = if param & 1 == 0 && how == 1 { yary::event::from_reader(&ra) } else { yary::event::from_reader_with(&ra, same_flags[how as usize]) };
    let mut done = false;
    let mut n = 0;
    let lim = cap(s.len()) + 2;
    match how {
        0 => {
            // a fresh iterator per event
            let mut b = Events::new(&rb, flags(param));
            let mut b = b.iter();
            while !done && n < lim {
                n += 1;
                let x = a.iter().next();
                step(x, &mut b, &mut done);
            }
        }
        1 => {
            // by value
            let mut b = Events::new(&rb, flags(param));
            let mut b = b.iter();
            let mut i = a.into_iter();
            while !done && n < lim {
                n += 1;
                let x = i.next();
                step(x, &mut b, &mut done);
            }
        }
        _ => {
            // switch from by-reference to by-value and back
            let k = sym::choose(0, 6);
            let mut b = Events::new(&rb, flags(param)).into_iter();
            for _ in 0..k {
                if !done {
                    let x = a.iter().next();
                    step(x, &mut b, &mut done);
                }
            }
            let mut i = a.into_iter();
            for _ in 0..2 {
                if !done {
                    let x = i.next();
                    step(x, &mut b, &mut done);
                }
            }
            let mut a = i.into_inner();
            let mut i = a.iter();
            while !done && n < lim {
                n += 1;
                let x = i.next();
                step(x, &mut b, &mut done);
            }
        }
    }
    sym::check(done, "iteration: too many events");
    sym::reach(1);
}

