pub use ::std::process::*;
use simcore as sc;

pub fn exit(code: i32) -> ! {
    if sc::active() && sc::cur_proc() != sc::HARNESS_PROC {
        let p = sc::cur_proc();
        sc::end_proc(p, sc::ProcExit::Aborted(format!("process::exit({})", code)), false);
        unreachable!()
    }
    ::std::process::exit(code)
}
pub fn abort() -> ! {
    if sc::active() && sc::cur_proc() != sc::HARNESS_PROC {
        let p = sc::cur_proc();
        sc::end_proc(p, sc::ProcExit::Aborted("process::abort".into()), false);
        unreachable!()
    }
    ::std::process::abort()
}
pub fn id() -> u32 { if sc::active() { 1000 + sc::cur_proc() } else { ::std::process::id() } }
/// simulator's own models: the process is aborted for a reason given in words
pub fn sim_abort(why: &str) { simcore::end_proc(simcore::cur_proc(), simcore::ProcExit::Aborted(why.to_string()), false) }
