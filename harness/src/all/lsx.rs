//! Interface to the symbolic executor (and, natively, to the replay runner).
extern "C" {
    fn lsx_u32(id: u32, lo: u32, hi: u32) -> u32;
    fn lsx_assume(b: bool);
    fn lsx_check(b: bool, code: u32);
    fn lsx_cover(code: u32);
    fn lsx_split(v: u32) -> u32;
    fn lsx_root(v: u32) -> u32;
    fn lsx_root64(v: u64) -> u64;
    fn lsx_where(b: bool);
    fn lsx_join(v: u32) -> u32;
    fn lsx_param(i: u32) -> u32;
    fn lsx_log(v: u64);
    fn lsx_watch(on: bool) -> u32;
    fn lsx_points(on: bool) -> u32;
    fn lsx_preempt(k: u32);
    fn lsx_done();
    fn lsx_again() -> bool;
}
pub fn sym(id: u32, lo: u32, hi: u32) -> u32 { unsafe { lsx_u32(id, lo, hi) } }
pub fn assume(b: bool) { unsafe { lsx_assume(b) } }
pub fn check(b: bool, code: u32) { unsafe { lsx_check(b, code) } }
pub fn cover(code: u32) { unsafe { lsx_cover(code) } }
pub fn split(v: u32) -> u32 { unsafe { lsx_split(v) } }
pub fn root(v: u32) -> u32 { unsafe { lsx_root(v) } }
/// A fact about rooted values that the executor may use once the solver has shown it.
pub fn fact(b: bool) { unsafe { lsx_where(b) } }
/// Tells the executor that both sides of a choice are best seen as functions of this value; 9999 stands for impossible.
pub fn join(v: u32) -> u32 { unsafe { lsx_join(v) } }
pub fn param(i: u32) -> u32 { unsafe { lsx_param(i) } }
pub fn log(v: u64) { unsafe { lsx_log(v) } }
pub fn root64(v: u64) -> u64 { unsafe { lsx_root64(v) } }
/// Between watch(true) and watch(false), notes which objects other threads can see get written, then undoes all writes.
pub fn watch(on: bool) -> u32 { unsafe { lsx_watch(on) } }
/// Between points(true) and points(false), counts the accesses to such objects.
pub fn points(on: bool) -> u32 { unsafe { lsx_points(on) } }
/// Another thread runs `h_c27_other` at the k-th such access from here (natively: all the time, until done).
pub fn preempt(k: u32) { unsafe { lsx_preempt(k) } }
pub fn done() { unsafe { lsx_done() } }
/// Whether to repeat what is to be preempted: no, natively for ten seconds.
pub fn again() -> bool { unsafe { lsx_again() } }
