//! Calls from a second real thread.

use std::sync::mpsc;

/// A second thread. It does what it is told while the first one waits.
pub struct Hand {
    work: mpsc::Sender<Box<dyn FnOnce() + Send>>,
    done: mpsc::Receiver<()>,
}
struct Through<T>(T);
unsafe impl<T> Send for Through<T> {}
impl Hand {
    pub fn new() -> Hand {
        let (work, todo) = mpsc::channel::<Box<dyn FnOnce() + Send>>();
        let (tell, done) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                for f in todo {
                    f();
                    if tell.send(()).is_err() {
                        break;
                    }
                }
            })
            .expect("a second thread");
        Hand { work, done }
    }
    pub fn does<R>(&self, f: impl FnOnce() -> R) -> R {
        let mut r = None;
        let job = Through((&mut r, f));
        let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let job = job;
            let Through((r, f)) = job;
            *r = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        });
        // SAFETY: what it borrows lives until it is done, which is waited for
        let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
        self.work.send(b).expect("the second thread");
        self.done.recv().expect("the second thread");
        r.unwrap().unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
}
