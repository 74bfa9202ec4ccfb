pub mod expect;
pub mod generic;
pub mod refp;
pub mod relate;
pub mod run;
pub mod scalars;
pub mod stream;
pub mod sym;
pub mod tmpl;

macro_rules! entries {
    ($($name:ident = $path:path;)*) => {
        $(#[no_mangle]
        pub extern "C-unwind" fn $name(arg: *const u8, len: usize, param: u64) {
            $path(unsafe { std::slice::from_raw_parts(arg, len) }, param)
        })*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn(*const u8, usize, u64))] = &[$((stringify!($name), $name),)*];
    };
}

entries! {
    t_robust = generic::t_robust;
    t_grammar = generic::t_grammar;
    t_lazy = generic::t_lazy;
    t_later = generic::t_later;
    t_alone = generic::t_alone;
    t_chunk = stream::t_chunk;
    t_hold = stream::t_hold;
    t_pull = stream::t_pull;
    t_iofail = stream::t_iofail;
    t_utf8 = stream::t_utf8;
    t_borrow = stream::t_borrow;
    t_iter = stream::t_iter;
    t_ref = refp::t_ref;
    t_breaks = relate::t_breaks;
    t_nest = relate::t_nest;
    t_cat = relate::t_cat;
    t_marks = relate::t_marks;
    t_err = relate::t_err;
    t_scalar = scalars::t_scalar;
}
