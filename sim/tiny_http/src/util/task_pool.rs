//! Simulator: one thread per connection instead of the pool of tiny_http (whose pool can queue a
//! new connection behind a stalled one; that is not code of the system under test).
use vsim_std::thread;

pub struct TaskPool;

impl TaskPool {
    pub fn new() -> TaskPool { TaskPool }

    pub fn spawn(&self, mut code: Box<FnMut() + Send>) {
        thread::spawn(move || code());
    }
}
