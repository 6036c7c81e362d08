//! Symbolic inputs, assumptions and checks.  Under the engine these are
//! intercepted; natively symrt.c replays one assignment.
extern "C" {
    fn sym_u8(name: *const u8) -> u8;
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8);
    fn sym_assume(c: i32);
    fn sym_check(c: i32, id: *const u8);
    fn sym_cover(id: *const u8);
    fn sym_pick(x: u32) -> u32;
    fn sym_fork(n: u32, name: *const u8) -> u32;
    fn sym_stop() -> !;
    fn sym_limit(m: *const u8) -> !;
    fn sym_log(p: *const u8, n: usize);
    fn sym_engine() -> i32;
    pub fn sym_init(argc: i32, argv: *const *const u8);
    pub fn sym_done();
}
fn z(s: &str) -> *const u8 { debug_assert!(s.ends_with('\0')); s.as_ptr() }
pub fn u8(name: &'static str) -> u8 { unsafe { sym_u8(z(name)) } }
pub fn u16(name: &'static str) -> u16 { let mut b = [0; 2]; bytes(&mut b, name); u16::from_le_bytes(b) }
pub fn u32(name: &'static str) -> u32 { let mut b = [0; 4]; bytes(&mut b, name); u32::from_le_bytes(b) }
pub fn u64(name: &'static str) -> u64 { let mut b = [0; 8]; bytes(&mut b, name); u64::from_le_bytes(b) }
pub fn bytes(b: &mut [u8], name: &'static str) { unsafe { sym_bytes(b.as_mut_ptr(), b.len(), z(name)) } }
pub fn bool(name: &'static str) -> bool { let b = u8(name); assume(b <= 1); b == 1 }
pub fn assume(c: bool) { unsafe { sym_assume(c as i32) } }
pub fn check(c: bool, id: &'static str) { unsafe { sym_check(c as i32, z(id)) } }
pub fn cover(id: &'static str) { unsafe { sym_cover(z(id)) } }
/// Case-split on every value `x` can take.
pub fn pick(x: u32) -> u32 { unsafe { sym_pick(x) } }
/// A fresh value below `n`, case-split.
pub fn fork(n: u32, name: &'static str) -> u32 {
    if n <= 256 { return unsafe { sym_fork(n, z(name)) }; }
    let h = fork((n + 127) / 128, name); h * 128 + fork((n - h * 128).min(128), name)
}
pub fn stop() -> ! { unsafe { sym_stop() } }
pub fn limit(m: &'static str) -> ! { unsafe { sym_limit(z(m)) } }
pub fn log(m: &str) { unsafe { sym_log(m.as_ptr(), m.len()) } }
pub fn engine() -> bool { unsafe { sym_engine() != 0 } }

#[macro_export]
macro_rules! check { ($c:expr, $id:literal) => { $crate::sym::check($c, concat!($id, "\0")) } }
#[macro_export]
macro_rules! cover { ($id:literal) => { $crate::sym::cover(concat!($id, "\0")) } }
#[macro_export]
macro_rules! nm { ($id:literal) => { concat!($id, "\0") } }
