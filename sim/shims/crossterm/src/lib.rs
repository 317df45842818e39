//! The real crossterm's types, with a simulated event source.
pub mod event {
    pub use real::event::*;
    use std::io;
    /// Blocks until the next scripted terminal event.
    pub fn read() -> io::Result<Event> {
        crate::sim::read()
    }
}
pub mod terminal {
    use std::io;
    pub fn enable_raw_mode() -> io::Result<()> {
        Ok(())
    }
    pub fn disable_raw_mode() -> io::Result<()> {
        Ok(())
    }
}
pub mod sim {
    use real::event::Event;
    use simrt::sched;
    use std::{collections::VecDeque, io};
    struct Src {
        q: VecDeque<(u64, Result<Event, i32>)>,
        taken: u64,
    }
    static mut SRC: Src = Src { q: VecDeque::new(), taken: 0 };
    fn src() -> &'static mut Src {
        unsafe { &mut *(&raw mut SRC) }
    }
    fn key() -> usize {
        (&raw const SRC) as usize
    }
    /// Script an event (or a read error, as an errno) arriving at the given simulated time (ns, monotonic).
    /// Arrival times must not decrease.
    pub fn push(at: u64, ev: Result<Event, i32>) {
        src().q.push_back((at, ev));
        sched::wake(key(), 64, !0);
    }
    /// Number of reads that returned.
    pub fn taken() -> u64 {
        src().taken
    }
    pub fn pending() -> usize {
        src().q.len()
    }
    pub(crate) fn read() -> io::Result<Event> {
        loop {
            sched::sync_point();
            match src().q.front() {
                None => {
                    sched::wait_on(key(), !0, sched::NEVER);
                }
                Some((at, _)) if *at > sched::now() => sched::sleep_until(*at),
                Some(_) => {
                    let (_, e) = src().q.pop_front().unwrap();
                    src().taken += 1;
                    return e.map_err(io::Error::from_raw_os_error);
                }
            }
        }
    }
}
