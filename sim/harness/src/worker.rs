//! A worker process: forks one child per run, so that every run starts from the same state.
use crate::exec::{execute, Res};
use crate::model::Viol;
use crate::plan::Plan;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Serialize, Deserialize)]
pub enum Cmd { Gen { prop: String, seed: u64 }, Plan { plan: Plan, log: bool } }

/// CPU seconds a task may compute between two scheduling points before it counts as not terminating
const CPU_S: u64 = 40;
/// CPU seconds after which a run that does go on is given up, without a verdict
const GIVE_UP_S: u64 = 160;
const GIVEN_UP: i32 = 77;
const WALL_S: i32 = 300;
/// address space of a run
const MEM: u64 = 3 << 30;

extern "C" fn on_xcpu(_: i32) {
    static LAST: AtomicU64 = AtomicU64::new(0);
    static SPENT: AtomicU64 = AtomicU64::new(0);
    let done = simcore::PROGRESS.load(Ordering::Relaxed);
    let spent = SPENT.fetch_add(CPU_S, Ordering::Relaxed) + CPU_S;
    unsafe {
        if done == LAST.swap(done, Ordering::Relaxed) {
            libc::signal(libc::SIGXCPU, libc::SIG_DFL);
            libc::kill(libc::getpid(), libc::SIGXCPU);
        } else if spent >= GIVE_UP_S {
            libc::_exit(GIVEN_UP);
        } else {
            let lim = libc::rlimit { rlim_cur: spent + CPU_S, rlim_max: GIVE_UP_S + CPU_S };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
        }
    }
}

pub fn fork_run(plan: &Plan, log: bool) -> Res {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { return herr("pipe failed"); }
        let pid = libc::fork();
        if pid < 0 { libc::close(fds[0]); libc::close(fds[1]); return herr("fork failed"); }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGXCPU, on_xcpu as *const () as libc::sighandler_t);
            let lim = libc::rlimit { rlim_cur: CPU_S, rlim_max: GIVE_UP_S + CPU_S };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // a small machine: more memory than this there is not
            libc::mallopt(libc::M_ARENA_MAX, 1);
            let lim = libc::rlimit { rlim_cur: MEM, rlim_max: MEM };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let r = execute(plan, log);
            let s = serde_json::to_vec(&r).unwrap();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&s);
            let _ = f.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let mut timed_out = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, WALL_S * 1000);
            if r == 0 { timed_out = true; libc::kill(pid, libc::SIGKILL); break; }
            let mut b = [0u8; 65536];
            match f.read(&mut b) { Ok(0) => break, Ok(n) => buf.extend_from_slice(&b[..n]), Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {} Err(_) => break }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == GIVEN_UP { return Res { counts: [("runs given up, too long".to_string(), 1)].into(), ..Default::default() }; }
        if timed_out { return herr("a run did not end in time and used little CPU"); }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let v = match sig {
                libc::SIGXCPU => ("hang", format!("a task computed for {} s of CPU time without reaching a scheduling point or the run's end", CPU_S)),
                libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => ("abort", format!("the process was aborted by signal {}", sig)),
                _ => return herr(&format!("a run was ended by signal {}", sig)),
            };
            return Res { viols: vec![Viol { kind: v.0.into(), msg: v.1 }], ..Default::default() };
        }
        match serde_json::from_slice(&buf) { Ok(r) => r, Err(e) => herr(&format!("unreadable result of a run: {} ({} bytes)", e, buf.len())) }
    }
}
fn herr(m: &str) -> Res { Res { harness_err: Some(m.into()), ..Default::default() } }

pub fn main() {
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) { Ok(0) | Err(_) => return, Ok(_) => {} }
        let r = match serde_json::from_str::<Cmd>(&line) {
            Ok(Cmd::Gen { prop, seed }) => fork_run(&crate::gen::plan(&prop, seed), false),
            Ok(Cmd::Plan { plan, log }) => fork_run(&plan, log),
            Err(e) => herr(&format!("bad command: {}", e)),
        };
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        let mut o = std::io::stdout().lock();
        if o.write_all(s.as_bytes()).is_err() || o.flush().is_err() { return; }
    }
}
