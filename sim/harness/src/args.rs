//! The command line as `std::env::args` sees it. A server's main function reads its options there, so
//! a run puts them in place of the harness's own, which carry enough padding (see main.rs).
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

static ARGV: AtomicPtr<*const libc::c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);
pub const ROOM: usize = 48;
pub const PAD: &str = "-";

extern "C" fn take(argc: libc::c_int, argv: *mut *const libc::c_char, _: *const *const libc::c_char) {
    ARGC.store(argc as usize, Ordering::SeqCst);
    ARGV.store(argv, Ordering::SeqCst);
}
#[used]
#[link_section = ".init_array"]
static TAKE: extern "C" fn(libc::c_int, *mut *const libc::c_char, *const *const libc::c_char) = take;

/// the harness's own arguments; starts the program again with room for others if there is none
pub fn own() -> Vec<String> {
    let mut a: Vec<String> = std::env::args().collect();
    if a.len() < ROOM {
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(&a[1..]).args((a.len()..ROOM).map(|_| PAD));
        eprintln!("cannot start again: {}", c.exec());
        std::process::exit(2);
    }
    while a.last().map_or(false, |x| x == PAD) { a.pop(); }
    a
}

#[cfg(feature = "bin")]
pub fn set(args: &[String]) {
    let (argv, n) = (ARGV.load(Ordering::SeqCst), ARGC.load(Ordering::SeqCst));
    assert!(!argv.is_null() && args.len() < n);
    unsafe {
        for (i, a) in args.iter().enumerate() { *argv.add(i) = CString::new(a.as_str()).unwrap().into_raw(); }
        *argv.add(args.len()) = std::ptr::null();
    }
    assert!(std::env::args().eq(args.iter().cloned()), "arguments are not in place");
}
