//! The interface between the harness and whoever runs it: the symbolic
//! executor (`/verif/engine`) gives these functions their meaning as builtins,
//! the replay binary implements them over a recorded counterexample.

extern "C-unwind" {
    fn sym_set(bitmap: *const u8) -> u8;
    fn sym_assume(b: bool);
    fn sym_concrete(v: u64) -> u64;
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_reach(k: u32);
    fn sym_note(p: *const u8, n: usize);
    fn sym_steps() -> u64;
}

pub type Set = [u8; 32];

/// One fresh symbolic byte ranging over `s`.
pub fn set(s: &Set) -> u8 {
    unsafe { sym_set(s.as_ptr()) }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
/// Case split until `v` is concrete.
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
/// A symbolic choice among `lo..=hi`, case split at once.
pub fn choose(lo: u8, hi: u8) -> u8 {
    if lo >= hi {
        return lo;
    }
    let mut s = [0u8; 32];
    let mut i = lo;
    loop {
        s[(i / 8) as usize] |= 1 << (i % 8);
        if i == hi {
            break;
        }
        i += 1;
    }
    conc(set(&s) as u64) as u8
}
pub fn flip() -> bool {
    choose(0, 1) == 1
}
pub fn fail(m: &str) -> ! {
    unsafe { sym_fail(m.as_ptr(), m.len()) }
}
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// The text this run is about, for whoever shows a counterexample.
pub fn note(b: &[u8]) {
    unsafe { sym_note(b.as_ptr(), b.len()) }
}
/// Reachability witness: the run must report every id the harness announces.
pub fn reach(k: u32) {
    unsafe { sym_reach(k) }
}
pub fn steps() -> u64 {
    unsafe { sym_steps() }
}
pub const fn range(lo: u8, hi: u8) -> Set {
    let mut s = [0u8; 32];
    let mut i = lo as usize;
    while i <= hi as usize {
        s[i / 8] |= 1 << (i % 8);
        i += 1;
    }
    s
}
pub const fn of(b: &[u8]) -> Set {
    let mut s = [0u8; 32];
    let mut i = 0;
    while i < b.len() {
        s[b[i] as usize / 8] |= 1 << (b[i] % 8);
        i += 1;
    }
    s
}
