//! Stand-ins for std::sync::mpsc and std::thread. Exactly one registered thread runs at a time, and every
//! channel-operation, spawn and join is a point at which the next thread is chosen, by
//!   VERIF_SCHED=actors:0,2,1,...   prefer these threads one after another (0: main, then in order of spawning)
//!   VERIF_SCHED=rand:SEED[:K]      randomly; with K, threads keep running for about K points
//! Without VERIF_SCHED, threads run freely.
//! All threads being blocked is reported as "VERIF-DEADLOCK" with exit-code 97.
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Ready,
    Chan(usize),
    Join(usize),
    Done,
}

struct St {
    threads: Vec<Th>,
    current: usize,
    actors: Option<Vec<usize>>,
    pos: usize,
    rng: u64,
    sticky: u64,
    configured: bool,
    free: bool,
    next_chan: usize,
    trace: Option<std::fs::File>,
}

static ST: Mutex<St> = Mutex::new(St {
    threads: Vec::new(),
    current: 0,
    actors: None,
    pos: 0,
    rng: 1,
    sticky: 1,
    configured: false,
    free: true,
    next_chan: 0,
    trace: None,
});
static CV: Condvar = Condvar::new();
thread_local!(static ME: Cell<Option<usize>> = Cell::new(None));

fn lock() -> MutexGuard<'static, St> {
    match ST.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

impl St {
    fn configure(&mut self) {
        if self.configured {
            return;
        }
        self.configured = true;
        let v = std::env::var("VERIF_SCHED").unwrap_or_default();
        let mut it = v.splitn(3, ':');
        match it.next() {
            Some("actors") => {
                self.free = false;
                self.actors = Some(
                    it.next()
                        .unwrap_or("")
                        .split(',')
                        .filter_map(|x| x.parse().ok())
                        .collect(),
                )
            }
            Some("rand") => {
                self.free = false;
                self.rng = it.next().and_then(|x| x.parse().ok()).unwrap_or(1u64) * 2 + 1;
                self.sticky = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
            }
            _ => (),
        }
        if let Ok(p) = std::env::var("VERIF_SCHED_TRACE") {
            self.trace = std::fs::File::create(p).ok();
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng = self
            .rng
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        self.rng >> 33
    }

    fn pick(&mut self) -> Option<usize> {
        let ready: Vec<usize> = (0..self.threads.len())
            .filter(|&i| self.threads[i] == Th::Ready)
            .collect();
        if ready.is_empty() {
            return None;
        }
        let mut choice = None;
        if let Some(actors) = &self.actors {
            // a preferred thread that can't run is skipped
            while choice.is_none() && self.pos < actors.len() {
                let a = actors[self.pos];
                self.pos += 1;
                if ready.contains(&a) {
                    choice = Some(a);
                }
            }
            if choice.is_none() {
                choice = Some(ready[0]);
            }
        }
        let choice = match choice {
            Some(c) => c,
            None => {
                if self.sticky > 1 && ready.contains(&self.current) && self.rand() % self.sticky != 0 {
                    self.current
                } else {
                    let r = self.rand() as usize;
                    ready[r % ready.len()]
                }
            }
        };
        if let Some(f) = self.trace.as_mut() {
            use std::io::Write;
            let _ = write!(f, "{},", choice);
        }
        Some(choice)
    }
}

/// id of the calling thread
fn me(st: &mut MutexGuard<'static, St>) -> usize {
    st.configure();
    match ME.with(|m| m.get()) {
        Some(i) => i,
        None => {
            let i = st.threads.len();
            st.threads.push(Th::Ready);
            ME.with(|m| m.set(Some(i)));
            if i == 0 {
                st.current = 0;
            }
            i
        }
    }
}

/// gives up the turn with the given state and waits for the next turn
fn switch(mut st: MutexGuard<'static, St>, i: usize, state: Th) -> MutexGuard<'static, St> {
    st.threads[i] = state;
    if st.free {
        while st.threads[i] != Th::Ready {
            st = match CV.wait(st) {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
        }
        return st;
    }
    // threads that came without a turn (spawned by other means) wait for one
    if st.current == i {
        st = hand_over(st);
    }
    while st.current != i {
        st = match CV.wait(st) {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
    }
    st
}

fn hand_over(mut st: MutexGuard<'static, St>) -> MutexGuard<'static, St> {
    for patience in 0.. {
        if let Some(next) = st.pick() {
            st.current = next;
            CV.notify_all();
            return st;
        }
        if patience == 20 {
            eprintln!("VERIF-DEADLOCK {:?}", st.threads);
            std::process::exit(97);
        }
        // maybe a thread is on its way that nobody knows yet
        st = match CV.wait_timeout(st, Duration::from_millis(100)) {
            Ok((g, _)) => g,
            Err(e) => e.into_inner().0,
        };
    }
    st
}

/// a point at which other threads may run
fn point() -> MutexGuard<'static, St> {
    let mut st = lock();
    let i = me(&mut st);
    switch(st, i, Th::Ready)
}

fn wake(st: &mut MutexGuard<'static, St>, what: Th) {
    for t in st.threads.iter_mut() {
        if *t == what {
            *t = Th::Ready;
        }
    }
    CV.notify_all();
}

pub mod mpsc {
    use super::*;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError};
    use std::collections::VecDeque;
    use std::sync::Arc;

    struct Inner<T> {
        queue: VecDeque<T>,
        senders: usize,
        alive: bool,
    }
    struct Chan<T> {
        id: usize,
        inner: Mutex<Inner<T>>,
    }
    impl<T> Chan<T> {
        fn inner(&self) -> MutexGuard<'_, Inner<T>> {
            match self.inner.lock() {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            }
        }
    }

    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    pub type SyncSender<T> = Sender<T>;

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let id = {
            let mut st = lock();
            let _ = me(&mut st);
            st.next_chan += 1;
            st.next_chan
        };
        let c = Arc::new(Chan {
            id,
            inner: Mutex::new(Inner {
                queue: VecDeque::new(),
                senders: 1,
                alive: true,
            }),
        });
        (Sender(Arc::clone(&c)), Receiver(c))
    }
    /// the bound is not modelled
    pub fn sync_channel<T>(_bound: usize) -> (SyncSender<T>, Receiver<T>) {
        channel()
    }

    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut st = point();
            let mut c = self.0.inner();
            if !c.alive {
                return Err(SendError(t));
            }
            c.queue.push_back(t);
            drop(c);
            wake(&mut st, Th::Chan(self.0.id));
            Ok(())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Sender<T> {
            self.0.inner().senders += 1;
            Sender(Arc::clone(&self.0))
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let mut st = lock();
            let mut c = self.0.inner();
            c.senders -= 1;
            let last = c.senders == 0;
            drop(c);
            if last {
                wake(&mut st, Th::Chan(self.0.id));
            }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let rest = {
                let mut c = self.0.inner();
                c.alive = false;
                std::mem::replace(&mut c.queue, VecDeque::new())
            };
            drop(rest);
        }
    }

    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let _st = point();
            let mut c = self.0.inner();
            match c.queue.pop_front() {
                Some(t) => Ok(t),
                None if c.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut st = point();
            loop {
                {
                    let mut c = self.0.inner();
                    if let Some(t) = c.queue.pop_front() {
                        return Ok(t);
                    }
                    if c.senders == 0 {
                        return Err(RecvError);
                    }
                }
                let i = me(&mut st);
                st = switch(st, i, Th::Chan(self.0.id));
            }
        }
        pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
            match self.try_recv() {
                Ok(t) => Ok(t),
                Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}

pub mod thread {
    use super::*;
    pub use std::thread::{current, panicking, park, sleep, Result, Thread, ThreadId};

    pub struct JoinHandle<T> {
        id: usize,
        handle: std::thread::JoinHandle<T>,
    }

    pub fn yield_now() {
        drop(point());
    }

    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let id = {
            let mut st = lock();
            let _ = me(&mut st);
            st.threads.push(Th::Ready);
            st.threads.len() - 1
        };
        let handle = std::thread::spawn(move || {
            ME.with(|m| m.set(Some(id)));
            {
                let mut st = lock();
                while !st.free && st.current != id {
                    st = match CV.wait(st) {
                        Ok(g) => g,
                        Err(e) => e.into_inner(),
                    };
                }
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            {
                let mut st = lock();
                st.threads[id] = Th::Done;
                wake(&mut st, Th::Join(id));
                if !st.free {
                    drop(hand_over(st));
                }
            }
            match r {
                Ok(t) => t,
                Err(e) => std::panic::resume_unwind(e),
            }
        });
        JoinHandle { id, handle }
    }

    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            {
                let mut st = point();
                while st.threads[self.id] != Th::Done {
                    let i = me(&mut st);
                    st = switch(st, i, Th::Join(self.id));
                }
            }
            self.handle.join()
        }
        pub fn thread(&self) -> &Thread {
            self.handle.thread()
        }
        pub fn is_finished(&self) -> bool {
            let st = point();
            st.threads[self.id] == Th::Done
        }
    }
}
