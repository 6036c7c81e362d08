#![no_main]
#![allow(static_mut_refs, dead_code, unused_unsafe, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#[macro_use]
pub mod sym;
pub mod world;
pub mod session;
mod h_smoke;
mod h_pair;
#[cfg(feature = "core")]
mod h_core;
#[cfg(feature = "opts")]
mod h_opts;
mod h_prompt;
mod h_life;

type H = fn(&[&'static str]);
fn table() -> &'static [(&'static str, H)] {
    &[
        ("smoke", h_smoke::smoke),
        #[cfg(feature = "core")]
        ("table", h_core::table),
        #[cfg(feature = "core")]
        ("dispatch", h_core::dispatch),
        #[cfg(feature = "core")]
        ("dispatch2", h_core::dispatch2),
        #[cfg(feature = "core")]
        ("panics", h_core::panics),
        #[cfg(feature = "core")]
        ("version", h_core::version),
        #[cfg(feature = "core")]
        ("print", h_core::print),
        #[cfg(feature = "core")]
        ("print_line", h_core::print_line),
        #[cfg(feature = "core")]
        ("error_chain", h_core::error_chain),
        #[cfg(feature = "opts")]
        ("optmap", h_opts::optmap),
        #[cfg(feature = "opts")]
        ("ints", h_opts::ints),
        #[cfg(feature = "opts")]
        ("words", h_opts::words),
        #[cfg(feature = "opts")]
        ("lists", h_opts::lists),
        #[cfg(feature = "opts")]
        ("addrs", h_opts::addrs),
        #[cfg(feature = "opts")]
        ("fields", h_opts::fields),
        #[cfg(feature = "opts")]
        ("missing", h_opts::missing),
        #[cfg(feature = "opts")]
        ("runas_gids", h_opts::runas_gids),
        #[cfg(feature = "opts")]
        ("invocation", h_opts::invocation),
        #[cfg(feature = "opts")]
        ("hostile", h_opts::hostile),
        ("template", h_prompt::template_),
        ("remote_prompt", h_prompt::remote_prompt),
        ("long_prompt", h_prompt::long_prompt),
        ("local_prompt", h_prompt::local_prompt),
        ("local_trouble", h_prompt::local_trouble),
        ("reasons", h_prompt::reasons),
        ("exempt", h_pair::exempt),
        ("bystander", h_pair::bystander),
        ("optlong", h_opts::optlong),
        ("approval_path", h_pair::approval_path),
        ("approve", h_pair::approve),
        ("socket_rights", h_pair::socket_rights),
        ("sockdir", h_pair::sockdir),
        ("occupied", h_pair::occupied),
        ("cleanup", h_pair::cleanup),
        ("sockpath", h_pair::sockpath),
        ("defaults", h_pair::defaults),
        ("mirror", h_pair::mirror),
        ("torrent", h_pair::torrent),
        ("winsize", h_pair::winsize),
        ("stdin", h_pair::stdin),
        ("ctrlc", h_pair::ctrlc),
        ("history", h_pair::history),
        ("version_only", h_pair::version_only),
        ("life", h_life::life),
    ]
}

#[no_mangle]
pub unsafe extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    sym::sym_init(argc, argv);
    let mut a: Vec<&'static str> = Vec::new();
    for i in 1..argc as usize { a.push(std::ffi::CStr::from_ptr(*argv.add(i) as *const _).to_str().unwrap()); }
    std::panic::set_hook(Box::new(|_| {}));
    let mut f: Option<H> = None;
    for (n, h) in table() { if *n == a[0] { f = Some(*h); } }
    match f { Some(f) => f(&a[2..]), None => sym::limit("no such harness\0") }
    sym::sym_done();
    0
}
