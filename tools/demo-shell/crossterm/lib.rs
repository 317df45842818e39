//! The real crossterm's types, with a scripted terminal.
pub mod event {
    pub use real::event::*;
    pub fn read() -> std::io::Result<Event> {
        crate::script::read()
    }
}
pub mod script {
    use real::event::Event;
    use std::{collections::VecDeque, io, sync::*};
    static Q: Mutex<VecDeque<Result<Event, i32>>> = Mutex::new(VecDeque::new());
    static C: Condvar = Condvar::new();
    pub fn push(e: Result<Event, i32>) {
        Q.lock().unwrap().push_back(e);
        C.notify_all();
    }
    pub(crate) fn read() -> io::Result<Event> {
        let mut q = Q.lock().unwrap();
        loop {
            match q.pop_front() {
                Some(e) => return e.map_err(io::Error::from_raw_os_error),
                None => q = C.wait(q).unwrap(),
            }
        }
    }
}
