//! A reference parser for YAML 1.2.2 streams, written from the productions of
//! the specification over bytes, without tokens. It gives the events a text
//! must produce, `Bad` if the text is not YAML, and `Skip` where the crate's
//! reading is deliberately lenient or YAML 1.1's (DESIGN.md lists these).

use crate::expect::*;
use crate::scalars::*;
use yary::event::types::{NodeKind, NodeKind::*, ScalarStyle};

#[derive(Debug, PartialEq)]
pub enum Stop {
    Bad,
    Skip,
}
use Stop::*;
type R<T> = Result<T, Stop>;

/// may a block collection begin on the current line?
#[derive(Clone, Copy, PartialEq)]
enum Compact {
    No,
    Yes,
}

#[derive(Default)]
struct Sep {
    nl: bool,
    tab: bool,
    any: bool,
}

pub struct P<'a> {
    b: &'a [u8],
    i: usize,
    line: usize,
    pub out: Vec<Ex>,
    tags: Vec<(Vec<u8>, Vec<u8>)>,
    /// longest implicit key
    pub limit: usize,
}

fn set_kind(x: &mut Ex, k: NodeKind) {
    match x {
        Ex::Sc(_, _, q, _) | Ex::Ms(q, _) | Ex::Qs(q, _) => *q = k,
        _ => (),
    }
}
fn some(p: &Props) -> bool {
    p.anchor.is_some() || p.tag.is_some()
}
fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric()
}

impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        P { b, i: 0, line: 0, out: Vec::with_capacity(40), tags: Vec::new(), limit: 1024 }
    }
    fn end(&self) -> bool {
        self.i >= self.b.len()
    }
    fn at(&self, c: u8) -> bool {
        self.i < self.b.len() && self.b[self.i] == c
    }
    fn col(&self) -> i32 {
        (self.i - self.line) as i32
    }
    /// an indicator that must be followed by white space
    fn ind(&self, c: u8) -> bool {
        self.at(c) && blank_at(self.b, self.i + 1)
    }
    fn mark(&self) -> bool {
        self.i == self.line && docmark(self.b, self.i)
    }
    fn white(&mut self) -> bool {
        let at = self.i;
        while self.i < self.b.len() && white(self.b[self.i]) {
            self.i += 1;
        }
        self.i > at
    }

    /// white space, comments and line breaks
    fn sep(&mut self) -> R<Sep> {
        let mut s = Sep::default();
        s.any = self.i == self.line;
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if white(c) {
                s.any = true;
                s.tab |= c == b'\t';
                self.i += 1;
            } else if c == b'#' {
                if !s.any {
                    return Err(Skip);
                }
                while self.i < self.b.len() && !brk(self.b[self.i]) {
                    if odd(self.b, self.i) {
                        return Err(Skip);
                    }
                    self.i += 1;
                }
            } else if brk(c) {
                self.i = past(self.b, self.i);
                self.line = self.i;
                s.nl = true;
                s.any = true;
                s.tab = false;
            } else if odd(self.b, self.i) {
                return Err(Skip);
            } else {
                break;
            }
        }
        Ok(s)
    }

    /// white space and comments up to the end of the line
    fn rest_of_line(&mut self) -> R<bool> {
        let ws = self.white();
        if self.at(b'#') {
            if !ws {
                return Err(Skip);
            }
            while !self.end() && !brk(self.b[self.i]) {
                if odd(self.b, self.i) {
                    return Err(Skip);
                }
                self.i += 1;
            }
        }
        if !self.end() && odd(self.b, self.i) {
            return Err(Skip);
        }
        Ok(self.end() || brk(self.b[self.i]))
    }

    fn empty(&mut self, k: NodeKind, p: Props) {
        self.out.push(Ex::Sc(ScalarStyle::Plain, Vec::new(), k, scalar_props(p)));
    }

    // ------------------------------------------------------------ stream

    pub fn stream(&mut self) -> R<()> {
        let mut first = true;
        // the previous document ended with '...'
        let mut ended = true;
        loop {
            let s = self.sep()?;
            while self.mark() && self.b[self.i] == b'.' {
                if first {
                    return Err(Skip);
                }
                ended = true;
                self.i += 3;
                if !self.rest_of_line()? {
                    return Err(Skip);
                }
                self.sep()?;
            }
            if self.end() && !first {
                return Ok(());
            }
            let mut version = None;
            let mut tags: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            let mut any = false;
            while self.at(b'%') && self.i == self.line {
                if !ended {
                    return Err(Skip);
                }
                any = true;
                self.directive(&mut version, &mut tags)?;
                self.sep()?;
            }
            if tags.iter().all(|t| t.0 != b"!") {
                tags.push((b"!".to_vec(), b"!".to_vec()));
            }
            if tags.iter().all(|t| t.0 != b"!!") {
                tags.push((b"!!".to_vec(), b"tag:yaml.org,2002:".to_vec()));
            }
            let explicit = self.mark() && self.b[self.i] == b'-';
            if any && !explicit || !explicit && !ended {
                return Err(Bad);
            }
            self.tags = tags.clone();
            self.out.push(Ex::Dd(!explicit, version.unwrap_or((1, 2)), tags));
            first = false;
            if explicit {
                self.i += 3;
                let save = (self.i, self.line);
                let s = self.sep()?;
                if !(self.end() || self.mark() || self.at(b'%') && self.i == self.line) {
                    if s.nl && s.tab {
                        return Err(Skip);
                    }
                    self.i = save.0;
                    self.line = save.1;
                    self.block(-1, Root, false, Compact::No)?;
                }
            } else if !self.end() {
                if s.tab {
                    return Err(Skip);
                }
                self.block(-1, Root, false, Compact::Yes)?;
            }
            // the document's end
            self.sep()?;
            if self.end() {
                self.out.push(Ex::De(true));
                return Ok(());
            }
            if self.at(b'%') && self.i == self.line {
                return Err(Skip);
            }
            if !self.mark() {
                return Err(Bad);
            }
            if self.b[self.i] == b'.' {
                self.i += 3;
                if !self.rest_of_line()? {
                    return Err(Skip);
                }
                self.out.push(Ex::De(false));
                ended = true;
            } else {
                self.out.push(Ex::De(true));
                ended = false;
            }
        }
    }

    fn directive(&mut self, version: &mut Option<(u8, u8)>, tags: &mut Vec<(Vec<u8>, Vec<u8>)>) -> R<()> {
        self.i += 1;
        if self.lit(b"YAML") {
            if !self.white() {
                return Err(if self.end() || brk(self.b[self.i]) { Bad } else { Skip });
            }
            let major = self.number()?;
            if !self.at(b'.') {
                return Err(Bad);
            }
            self.i += 1;
            let minor = self.number()?;
            if !self.rest_of_line()? {
                return Err(if word(self.b[self.i]) { Bad } else { Skip });
            }
            if version.is_some() {
                return Err(Bad);
            }
            *version = Some((major, minor));
        } else if self.lit(b"TAG") {
            if !self.white() {
                return Err(if self.end() || brk(self.b[self.i]) { Bad } else { Skip });
            }
            let at = self.i;
            if !self.at(b'!') {
                return Err(Bad);
            }
            self.i += 1;
            while !self.end() && word(self.b[self.i]) {
                self.i += 1;
            }
            if self.at(b'-') {
                return Err(Skip);
            }
            if self.at(b'!') {
                self.i += 1;
            } else if self.i > at + 1 {
                return Err(Bad);
            }
            let handle = self.b[at..self.i].to_vec();
            if !self.white() {
                return Err(Bad);
            }
            let prefix = self.uri(false, true)?;
            if prefix.is_empty() {
                return Err(Bad);
            }
            if !self.rest_of_line()? {
                return Err(if !self.end() && white(self.b[self.i - 1]) { Skip } else { Bad });
            }
            if tags.iter().any(|t| t.0 == handle) {
                return Err(Bad);
            }
            tags.push((handle, prefix));
        } else {
            return Err(Skip);
        }
        Ok(())
    }
    fn lit(&mut self, s: &[u8]) -> bool {
        if self.b.len() - self.i < s.len() {
            return false;
        }
        for k in 0..s.len() {
            if self.b[self.i + k] != s[k] {
                return false;
            }
        }
        self.i += s.len();
        true
    }
    fn number(&mut self) -> R<u8> {
        let mut v = 0u32;
        let at = self.i;
        while !self.end() && self.b[self.i].is_ascii_digit() {
            v = v * 10 + (self.b[self.i] - b'0') as u32;
            if v > 255 {
                return Err(Skip);
            }
            self.i += 1;
        }
        if self.i == at {
            return Err(Bad);
        }
        Ok(v as u8)
    }
    fn uri(&mut self, verbatim: bool, prefix: bool) -> R<Vec<u8>> {
        let mut o = Vec::new();
        while !self.end() {
            let c = self.b[self.i];
            match c {
                b'%' => {
                    let mut need = 0;
                    let mut point = 0u32;
                    let mut least = 0;
                    loop {
                        if self.i + 3 > self.b.len() || self.b[self.i] != b'%' {
                            return Err(Bad);
                        }
                        let v = match (hexv(self.b[self.i + 1]), hexv(self.b[self.i + 2])) {
                            (Some(x), Some(y)) => x << 4 | y,
                            _ => return Err(Bad),
                        };
                        self.i += 3;
                        if need == 0 {
                            if v < 0x80 {
                                point = v;
                            } else if v >= 0xC0 && v < 0xE0 {
                                (need, point, least) = (1, v & 31, 0x80);
                            } else if v >= 0xE0 && v < 0xF0 {
                                (need, point, least) = (2, v & 15, 0x800);
                            } else if v >= 0xF0 && v < 0xF8 {
                                (need, point, least) = (3, v & 7, 0x10000);
                            } else {
                                return Err(Bad);
                            }
                        } else {
                            if v & 0xC0 != 0x80 {
                                return Err(Bad);
                            }
                            point = point << 6 | v & 63;
                            need -= 1;
                        }
                        if need == 0 {
                            break;
                        }
                    }
                    if point < least || point > 0x10FFFF || point >= 0xD800 && point <= 0xDFFF {
                        return Err(Bad);
                    }
                    utf8(point, &mut o);
                }
                b'#' => return Err(Skip),
                b'!' if !verbatim && !(prefix && o.is_empty()) => return Err(Skip),
                b',' | b'[' | b']' if prefix => return Err(Skip),
                b',' | b'[' | b']' if !verbatim => break,
                _ if word(c) => {
                    o.push(c);
                    self.i += 1;
                }
                b'!' | b'-' | b';' | b'/' | b'?' | b':' | b'@' | b'&' | b'=' | b'+' | b'$' | b'_' | b'.' | b'~' | b'*' | b'\'' | b'(' | b')' | b',' | b'['
                | b']' => {
                    o.push(c);
                    self.i += 1;
                }
                _ => break,
            }
        }
        Ok(o)
    }

    // ------------------------------------------------------------ properties

    /// what may follow an anchor, alias or tag
    fn follows(&self, flow: bool) -> bool {
        blank_at(self.b, self.i) || flow && matches!(self.b[self.i], b',' | b']' | b'}')
    }
    fn name(&mut self, flow: bool) -> R<Vec<u8>> {
        self.i += 1;
        let at = self.i;
        while !self.end() && word(self.b[self.i]) {
            self.i += 1;
        }
        if !self.follows(flow) {
            return Err(Skip);
        }
        if self.i == at {
            return Err(Bad);
        }
        Ok(self.b[at..self.i].to_vec())
    }
    fn prop(&mut self, p: &mut Props, flow: bool) -> R<()> {
        if self.at(b'&') {
            let n = self.name(flow)?;
            if p.anchor.is_some() {
                return Err(Bad);
            }
            p.anchor = Some(n);
            return Ok(());
        }
        let at = self.i;
        self.i += 1;
        let tag;
        if self.at(b'<') {
            self.i += 1;
            let u = self.uri(true, false)?;
            if !self.at(b'>') {
                return Err(if !self.end() && (odd(self.b, self.i) || self.b[self.i] >= 0x80) { Skip } else { Bad });
            }
            self.i += 1;
            if u.is_empty() {
                return Err(Bad);
            }
            tag = (Vec::new(), u);
        } else {
            while !self.end() && word(self.b[self.i]) {
                self.i += 1;
            }
            let handle;
            if self.at(b'!') {
                self.i += 1;
                handle = self.b[at..self.i].to_vec();
            } else {
                if !self.end() && self.b[self.i] == b'-' {
                    // a handle's name may hold '-' in YAML
                    let mut j = self.i;
                    while j < self.b.len() && (word(self.b[j]) || self.b[j] == b'-') {
                        j += 1;
                    }
                    if j < self.b.len() && self.b[j] == b'!' {
                        return Err(Skip);
                    }
                }
                self.i = at + 1;
                handle = b"!".to_vec();
            }
            let suffix = self.uri(false, false)?;
            if suffix.is_empty() && handle.len() > 1 {
                return Err(Bad);
            }
            if self.tags.iter().all(|t| t.0 != handle) {
                return Err(Bad);
            }
            tag = (handle, suffix);
        }
        if !self.follows(flow) {
            return Err(Skip);
        }
        if p.tag.is_some() {
            return Err(Bad);
        }
        p.tag = Some(tag);
        Ok(())
    }

    // ------------------------------------------------------------ block

    /// A block node; `n` is its parent's indentation.
    fn block(&mut self, n: i32, kind: NodeKind, zero: bool, mut compact: Compact) -> R<()> {
        let mut p = Props::default();
        let mut started = self.i == self.line;
        loop {
            let s = self.sep()?;
            if s.nl {
                compact = Compact::Yes;
                started = true;
            }
            let col = self.col();
            if self.end() || started && (self.mark() || col <= n && !(zero && col == n && self.ind(b'-'))) {
                if !self.end() && (s.tab || self.at(b'|') || self.at(b'>')) {
                    return Err(Skip);
                }
                self.empty(kind, p);
                return Ok(());
            }
            if s.tab && started {
                return Err(Skip);
            }
            let coll = self.ind(b'-') || self.ind(b'?') || self.ind(b':');
            if coll && compact == Compact::No {
                return Err(Bad);
            }
            if coll && (s.tab || self.at(b':')) {
                return Err(Skip);
            }
            if coll {
                if self.at(b'-') {
                    return self.seq(col, kind, p);
                }
                self.out.push(Ex::Ms(kind, p));
                return self.map(col, false);
            }
            if compact != Compact::No {
                let mark = self.out.len();
                self.out.push(Ex::Ms(kind, p.clone()));
                if self.key()? {
                    if s.tab {
                        return Err(Skip);
                    }
                    return self.map(col, true);
                }
                self.out.truncate(mark);
            }
            if self.at(b'&') || self.at(b'!') {
                self.prop(&mut p, false)?;
                compact = Compact::No;
                started = false;
                continue;
            }
            break;
        }
        if self.at(b'|') || self.at(b'>') {
            let c = Ctx { pre: b"-", post: b"", min: 0, n, flow: false, key: false, kind };
            let st = if self.at(b'|') { ScalarStyle::Literal } else { ScalarStyle::Folded };
            let (v, e) = blockref(&self.b[self.i..], &c);
            return match v {
                Ref::Val(v) => {
                    self.i += e;
                    self.line = self.i;
                    self.out.push(Ex::Sc(st, v, kind, scalar_props(p)));
                    Ok(())
                }
                Ref::Bad => Err(Bad),
                Ref::Skip => Err(Skip),
            };
        }
        match self.atom(kind, p, n, false, false)? {
            Some(_) => Ok(()),
            None => Err(Bad),
        }
    }

    /// Whether the collection at `col` goes on.
    fn next(&mut self, col: i32) -> R<bool> {
        let s = self.sep()?;
        if self.end() || self.mark() {
            return Ok(false);
        }
        let mut k = self.line;
        while k < self.i {
            if !white(self.b[k]) {
                return Err(Bad);
            }
            k += 1;
        }
        if s.tab {
            return Err(Skip);
        }
        if self.at(b'%') && self.i == self.line {
            return Err(Skip);
        }
        let c = self.col();
        if c > col {
            return Err(Bad);
        }
        Ok(c == col)
    }

    fn seq(&mut self, col: i32, kind: NodeKind, p: Props) -> R<()> {
        self.out.push(Ex::Qs(kind, p));
        loop {
            self.i += 1;
            self.block(col, Entry, false, Compact::Yes)?;
            if !(self.next(col)? && self.ind(b'-')) {
                break;
            }
        }
        self.out.push(Ex::Qe);
        Ok(())
    }

    /// The pairs of a block mapping; `keyed`: just past an implicit key's ':'.
    fn map(&mut self, col: i32, mut keyed: bool) -> R<()> {
        loop {
            if keyed {
                self.block(col, Value, true, Compact::No)?;
                keyed = false;
            } else if self.ind(b'?') {
                self.i += 1;
                self.block(col, Key, true, Compact::Yes)?;
                if self.next(col)? && self.ind(b':') {
                    self.i += 1;
                    self.block(col, Value, true, Compact::Yes)?;
                } else {
                    self.empty(Value, Props::default());
                }
            } else if self.ind(b':') {
                // the crate insists on '?' for empty keys
                return Err(Skip);
            } else if self.key()? {
                keyed = true;
                continue;
            } else {
                return Err(Bad);
            }
            if !self.next(col)? {
                break;
            }
        }
        self.out.push(Ex::Me);
        Ok(())
    }

    /// An implicit key and its ':', or nothing at all.
    fn key(&mut self) -> R<bool> {
        let save = (self.i, self.line, self.out.len());
        let mut p = Props::default();
        let mut ok = true;
        while self.at(b'&') || self.at(b'!') {
            self.prop(&mut p, false)?;
            self.white();
        }
        if self.ind(b':') && some(&p) {
            self.empty(Key, p);
        } else {
            ok = !self.end() && !brk(self.b[self.i]) && !self.at(b'#') && self.atom(Key, p, -1, false, true)?.is_some();
        }
        if ok {
            self.white();
            if self.ind(b':') && self.i - save.0 <= self.limit {
                self.i += 1;
                return Ok(true);
            }
        }
        self.i = save.0;
        self.line = save.1;
        self.out.truncate(save.2);
        Ok(false)
    }

    // ------------------------------------------------------------ flow

    /// An alias, quoted or plain scalar, or flow collection. None: it does not
    /// fit on one line, or nothing of the kind starts here. Some(true): written
    /// the JSON way.
    fn atom(&mut self, kind: NodeKind, p: Props, n: i32, flow: bool, oneline: bool) -> R<Option<bool>> {
        if self.end() {
            return Err(Bad);
        }
        let c = self.b[self.i];
        match c {
            b'*' => {
                let name = self.name(flow)?;
                if some(&p) || kind == Root {
                    return Err(Bad);
                }
                self.out.push(Ex::Al(name));
                Ok(Some(false))
            }
            b'"' | b'\'' => {
                let mut j = self.i + 1;
                let mut nl = None;
                loop {
                    if j >= self.b.len() {
                        // never closed
                        return Err(Bad);
                    }
                    let d = self.b[j];
                    if d == c {
                        if c == b'\'' && j + 1 < self.b.len() && self.b[j + 1] == c {
                            j += 2;
                            continue;
                        }
                        break;
                    }
                    if c == b'"' && d == b'\\' {
                        j += 1;
                        if j >= self.b.len() {
                            return Err(Bad);
                        }
                        if !brk(self.b[j]) {
                            j += 1;
                        }
                        continue;
                    }
                    if brk(d) {
                        j = past(self.b, j);
                        nl = Some(j);
                        continue;
                    }
                    j += 1;
                }
                if nl.is_some() && oneline {
                    return Ok(None);
                }
                let cx = Ctx { pre: b"", post: b"", min: (n + 1) as usize, n, flow, key: oneline, kind };
                match quoted(&self.b[self.i + 1..j], &cx, c == b'"') {
                    Ref::Val(v) => {
                        self.i = j + 1;
                        if let Some(l) = nl {
                            self.line = l;
                        }
                        let st = if c == b'"' { ScalarStyle::DoubleQuote } else { ScalarStyle::SingleQuote };
                        self.out.push(Ex::Sc(st, v, kind, scalar_props(p)));
                        Ok(Some(true))
                    }
                    Ref::Bad => Err(Bad),
                    Ref::Skip => Err(Skip),
                }
            }
            b'[' => Ok(if self.fseq(kind, p, n, oneline)? { Some(true) } else { None }),
            b'{' => Ok(if self.fmap(kind, p, n, oneline)? { Some(true) } else { None }),
            b'|' | b'>' if oneline && !flow => Ok(None),
            b'%' if self.i == self.line => Err(Skip),
            b'|' | b'>' | b'%' | b'@' | b'`' | b',' | b']' | b'}' | b'&' | b'!' => Err(Bad),
            b'-' | b'?' | b':' if blank_at(self.b, self.i + 1) => Err(Bad),
            b'-' | b'?' | b':' if flow && flowind(self.b[self.i + 1]) => Err(if c == b'?' { Skip } else { Bad }),
            b':' if flow => Err(Skip),
            _ => {
                self.plain(kind, p, n, flow, oneline)?;
                Ok(Some(false))
            }
        }
    }

    fn plain(&mut self, kind: NodeKind, p: Props, n: i32, flow: bool, oneline: bool) -> R<()> {
        let b = self.b;
        let mut o = Vec::new();
        let mut i = self.i;
        loop {
            let mut stop = false;
            while i < b.len() && !white(b[i]) && !brk(b[i]) {
                if odd(b, i) {
                    return Err(Skip);
                }
                let ch = b[i];
                if flow && flowind(ch) || ch == b':' && (blank_at(b, i + 1) || flow && flowind(b[i + 1])) {
                    stop = true;
                    break;
                }
                o.push(ch);
                i += 1;
            }
            self.i = i;
            if stop {
                break;
            }
            let mut j = i;
            while j < b.len() && white(b[j]) {
                j += 1;
            }
            if j >= b.len() || b[j] == b'#' {
                break;
            }
            if !brk(b[j]) {
                if flow && flowind(b[j]) || b[j] == b':' && (blank_at(b, j + 1) || flow && flowind(b[j + 1])) {
                    break;
                }
                o.extend_from_slice(&b[i..j]);
                i = j;
                continue;
            }
            if oneline {
                break;
            }
            let mut breaks = 0;
            let mut at;
            let mut ind;
            loop {
                j = past(b, j);
                breaks += 1;
                at = j;
                while j < b.len() && b[j] == b' ' {
                    j += 1;
                }
                ind = (j - at) as i32;
                while j < b.len() && white(b[j]) {
                    j += 1;
                }
                if j < b.len() && brk(b[j]) {
                    continue;
                }
                break;
            }
            if j >= b.len() || b[j] == b'#' || j == at && docmark(b, j) {
                break;
            }
            if ind <= n {
                if flow || j > at + ind as usize {
                    return Err(Skip);
                }
                break;
            }
            if flow && flowind(b[j]) || b[j] == b':' && (blank_at(b, j + 1) || flow && flowind(b[j + 1])) {
                break;
            }
            if breaks == 1 {
                o.push(b' ');
            }
            for _ in 1..breaks {
                o.push(b'\n');
            }
            self.line = at;
            i = j;
        }
        self.out.push(Ex::Sc(ScalarStyle::Plain, o, kind, scalar_props(p)));
        Ok(())
    }

    /// Separation inside flow collections; false: crosses a line although it
    /// must not.
    fn fsep(&mut self, n: i32, oneline: bool) -> R<bool> {
        let s = self.sep()?;
        if s.nl && oneline {
            return Ok(false);
        }
        if self.end() {
            return Err(Bad);
        }
        if s.nl {
            if self.mark() {
                return Err(Bad);
            }
            // the crate does not check the indentation of flow collections
            if self.col() <= n || s.tab && n >= 0 {
                return Err(Skip);
            }
        }
        Ok(true)
    }
    /// ':' as an indicator in flow context
    fn value_ind(&self) -> bool {
        self.at(b':') && (blank_at(self.b, self.i + 1) || flowind(self.b[self.i + 1]))
    }

    /// A flow node; None as for `atom`.
    fn fnode(&mut self, kind: NodeKind, n: i32, oneline: bool) -> R<Option<bool>> {
        let mut p = Props::default();
        while self.at(b'&') || self.at(b'!') {
            self.prop(&mut p, true)?;
            if !self.fsep(n, oneline)? {
                return Ok(None);
            }
        }
        if some(&p) {
            if self.value_ind() || self.at(b',') || self.at(b']') || self.at(b'}') {
                self.empty(kind, p);
                return Ok(Some(false));
            }
            if self.at(b':') {
                return Err(Skip);
            }
        }
        self.atom(kind, p, n, true, oneline)
    }
    /// What follows a ':' in a flow collection.
    fn fvalue(&mut self, n: i32, oneline: bool) -> R<bool> {
        self.i += 1;
        if !self.fsep(n, oneline)? {
            return Ok(false);
        }
        if self.at(b',') || self.at(b']') || self.at(b'}') {
            self.empty(Value, Props::default());
            return Ok(true);
        }
        Ok(self.fnode(Value, n, oneline)?.is_some())
    }
    /// '? key : value'
    fn fexplicit(&mut self, n: i32, oneline: bool) -> R<bool> {
        if !blank_at(self.b, self.i + 1) {
            return Err(Skip);
        }
        self.i += 1;
        if !self.fsep(n, oneline)? {
            return Ok(false);
        }
        let mut json = false;
        if self.value_ind() || self.at(b',') || self.at(b']') || self.at(b'}') {
            self.empty(Key, Props::default());
        } else {
            match self.fnode(Key, n, oneline)? {
                None => return Ok(false),
                Some(j) => json = j,
            }
        }
        if !self.fsep(n, oneline)? {
            return Ok(false);
        }
        if self.value_ind() || json && self.at(b':') {
            return self.fvalue(n, oneline);
        }
        if self.at(b':') {
            return Err(Skip);
        }
        self.empty(Value, Props::default());
        Ok(true)
    }
    fn explicit_ind(&self) -> bool {
        self.at(b'?') && (blank_at(self.b, self.i + 1) || flowind(self.b[self.i + 1]))
    }

    fn fseq(&mut self, kind: NodeKind, p: Props, n: i32, oneline: bool) -> R<bool> {
        self.out.push(Ex::Qs(kind, p));
        self.i += 1;
        loop {
            if !self.fsep(n, oneline)? {
                return Ok(false);
            }
            if self.at(b']') {
                self.i += 1;
                self.out.push(Ex::Qe);
                return Ok(true);
            }
            let mark = self.out.len();
            let start = (self.i, self.line);
            if self.explicit_ind() {
                self.out.push(Ex::Ms(Entry, Props::default()));
                if !self.fexplicit(n, oneline)? {
                    return Ok(false);
                }
                self.out.push(Ex::Me);
            } else if self.value_ind() {
                self.out.push(Ex::Ms(Entry, Props::default()));
                self.empty(Key, Props::default());
                if !self.fvalue(n, oneline)? {
                    return Ok(false);
                }
                self.out.push(Ex::Me);
            } else {
                let json = match self.fnode(Entry, n, oneline)? {
                    None => return Ok(false),
                    Some(j) => j,
                };
                self.white();
                if self.value_ind() || self.at(b':') && json {
                    if self.line != start.1 || self.i - start.0 > self.limit {
                        return Err(Bad);
                    }
                    set_kind(&mut self.out[mark], Key);
                    self.out.insert(mark, Ex::Ms(Entry, Props::default()));
                    if !self.fvalue(n, oneline)? {
                        return Ok(false);
                    }
                    self.out.push(Ex::Me);
                } else if self.at(b':') {
                    return Err(Skip);
                }
            }
            if !self.fsep(n, oneline)? {
                return Ok(false);
            }
            if self.at(b',') {
                self.i += 1;
            } else if !self.at(b']') {
                return Err(Bad);
            }
        }
    }

    fn fmap(&mut self, kind: NodeKind, p: Props, n: i32, oneline: bool) -> R<bool> {
        self.out.push(Ex::Ms(kind, p));
        self.i += 1;
        loop {
            if !self.fsep(n, oneline)? {
                return Ok(false);
            }
            if self.at(b'}') {
                self.i += 1;
                self.out.push(Ex::Me);
                return Ok(true);
            }
            if self.explicit_ind() {
                if !self.fexplicit(n, oneline)? {
                    return Ok(false);
                }
            } else if self.value_ind() {
                self.empty(Key, Props::default());
                if !self.fvalue(n, oneline)? {
                    return Ok(false);
                }
            } else {
                let start = (self.i, self.line);
                let json = match self.fnode(Key, n, oneline)? {
                    None => return Ok(false),
                    Some(j) => j,
                };
                if !self.fsep(n, oneline)? {
                    return Ok(false);
                }
                if self.value_ind() || self.at(b':') && json {
                    // YAML lets these keys be long and span lines
                    if self.line != start.1 || self.i - start.0 > self.limit {
                        return Err(Skip);
                    }
                    if !self.fvalue(n, oneline)? {
                        return Ok(false);
                    }
                } else if self.at(b':') {
                    return Err(Skip);
                } else {
                    self.empty(Value, Props::default());
                }
            }
            if !self.fsep(n, oneline)? {
                return Ok(false);
            }
            if self.at(b',') {
                self.i += 1;
            } else if !self.at(b'}') {
                return Err(Bad);
            }
        }
    }
}

/// the crate drops the non-specific tag '!' from scalars
fn scalar_props(mut p: Props) -> Props {
    if matches!(&p.tag, Some((h, s)) if h.len() == 1 && s.is_empty()) {
        p.tag = None;
    }
    p
}

// ---------------------------------------------------------------- entries

use crate::run::*;
use crate::{generic::cap, sym, tmpl};
use yary::event::flag::*;

/// Any text against the reference parser. param bit 0: lazy, bit 1: streamed
/// reach 1 valid, 2 invalid
pub fn t_ref(arg: &[u8], param: u64) {
    let b = tmpl::build(arg);
    let s = tmpl::text(&b);
    let mut p = P::new(&b);
    let r = p.stream();
    if r == Err(Skip) {
        sym::assume(false);
    }
    for i in 0..b.len() {
        // YAML's view of these characters is not the crate's
        sym::assume(!odd(&b, i));
    }
    let fl = if param & 1 != 0 { O_LAZY } else { O_NIL };
    if param & 2 != 0 {
        let mut src = crate::stream::Src::new(&b);
        src.piece = (param >> 8 & 0xFFFF) as usize;
        let rd = yary::reader::from_read(src);
        judge(r, &p.out, &drive(&rd, fl, cap(s.len())));
    } else {
        let rd = yary::reader::from_utf8(s);
        judge(r, &p.out, &drive(&rd, fl, cap(s.len())));
    }
}
fn judge(r: R<()>, out: &[Ex], o: &Out) {
    match r {
        Ok(()) => {
            stream(o, out, true);
            sym::reach(1);
        }
        _ => {
            sym::check(o.err.is_some(), "malformed text accepted");
            sym::reach(2);
        }
    }
}
