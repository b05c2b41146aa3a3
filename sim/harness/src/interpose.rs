//! libc entry points the real standard library would otherwise use to reach past the simulator:
//! the hash-map seed, and stat on simulated paths (`Path::exists` and friends).
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uint, c_void};

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    simcore::entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as isize
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() || !simcore::active() { return None; }
    let s = CStr::from_ptr(p).to_str().ok()?;
    let relative = !s.is_empty() && !s.starts_with('/') && simcore::cur_proc() != simcore::HARNESS_PROC;
    if s.starts_with("/sim") || relative { Some(s.to_string()) } else { None }
}

/// A directory of the simulated disk opened behind the shim's back (`Path::read_dir`).
struct SimDir { path: String, names: std::vec::IntoIter<(String, simcore::disk::Kind)>, ent: libc::dirent64 }
static DIRS: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());
const FIRST_DIR_FD: c_int = 1 << 28;
fn is_sim_dir(d: *mut libc::DIR) -> Option<usize> { DIRS.lock().unwrap().iter().position(|x| x.0 == d as usize) }
macro_rules! real { ($name:literal, $t:ty) => {{ let f = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char); std::mem::transmute::<*mut c_void, $t>(f) }} }

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if let Some(p) = sim_path(path) {
        return match simcore::disk::readdir(&p) {
            Ok(v) => {
                let d = Box::into_raw(Box::new(SimDir { path: p.clone(), names: v.into_iter(), ent: std::mem::zeroed() })) as *mut libc::DIR;
                DIRS.lock().unwrap().push((d as usize, p));
                d
            }
            Err(e) => { *libc::__errno_location() = e.raw_os_error().unwrap_or(5); std::ptr::null_mut() }
        };
    }
    real!("opendir", extern "C" fn(*const c_char) -> *mut libc::DIR)(path)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if is_sim_dir(d).is_some() {
        let d = &mut *(d as *mut SimDir);
        return match d.names.next() {
            Some((n, k)) => {
                d.ent = std::mem::zeroed();
                d.ent.d_ino = 1;
                d.ent.d_type = match k { simcore::disk::Kind::Dir => libc::DT_DIR, simcore::disk::Kind::File => libc::DT_REG };
                for (i, b) in n.bytes().take(255).enumerate() { d.ent.d_name[i] = b as c_char; }
                &mut d.ent
            }
            None => { let _ = &d.path; std::ptr::null_mut() }
        };
    }
    real!("readdir64", extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if let Some(i) = is_sim_dir(d) {
        DIRS.lock().unwrap()[i].0 = 0; // its number stays taken, entries may still be asked about
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    real!("closedir", extern "C" fn(*mut libc::DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(i) = is_sim_dir(d) { return FIRST_DIR_FD + i as c_int; }
    real!("dirfd", extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(p) = sim_path(path) {
        return match simcore::disk::canonical(&p) {
            Ok(p) if out.is_null() => libc::strdup(std::ffi::CString::new(p).unwrap_or_default().as_ptr()),
            Ok(p) => { let p = std::ffi::CString::new(p).unwrap_or_default(); libc::strcpy(out, p.as_ptr()) }
            Err(e) => { *libc::__errno_location() = e.raw_os_error().unwrap_or(5); std::ptr::null_mut() }
        };
    }
    real!("realpath", extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let below = if dirfd >= FIRST_DIR_FD && !path.is_null() {
        let base = DIRS.lock().unwrap().get((dirfd - FIRST_DIR_FD) as usize).map(|d| d.1.clone());
        base.map(|b| format!("{}/{}", b, CStr::from_ptr(path).to_string_lossy()))
    } else { None };
    if let Some(p) = below.or_else(|| sim_path(path)) {
        return match simcore::disk::stat(&p) {
            Ok(s) => {
                let mut st: libc::statx = std::mem::zeroed();
                st.stx_mask = 0x7ff;
                st.stx_mode = match s.kind { simcore::disk::Kind::Dir => 0o040755, simcore::disk::Kind::File => 0o100644 };
                st.stx_size = s.len;
                st.stx_ino = s.ino;
                st.stx_nlink = 1;
                st.stx_blksize = 4096;
                *buf = st;
                0
            }
            Err(e) => { *libc::__errno_location() = e.raw_os_error().unwrap_or(5); -1 }
        };
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as c_int
}

/// Ends the simulated process, not the run: a server's option parser leaves through here.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if simcore::active() && simcore::cur_proc() != simcore::HARNESS_PROC {
        let p = simcore::cur_proc();
        simcore::end_proc(p, simcore::ProcExit::Aborted("exit".to_string()), false);
    }
    let real = libc::dlsym(libc::RTLD_NEXT, b"exit\0".as_ptr() as *const c_char);
    let real: extern "C" fn(c_int) -> ! = std::mem::transmute(real);
    real(code)
}

/// Rust's `std::process::exit` lets only the first thread of a real process through and pauses the
/// others; here the others belong to other simulated processes, which end as well.
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if simcore::active() && simcore::cur_proc() != simcore::HARNESS_PROC {
        let p = simcore::cur_proc();
        simcore::end_proc(p, simcore::ProcExit::Aborted("exit".to_string()), false);
    }
    let real = libc::dlsym(libc::RTLD_NEXT, b"pause\0".as_ptr() as *const c_char);
    let real: extern "C" fn() -> c_int = std::mem::transmute(real);
    real()
}
