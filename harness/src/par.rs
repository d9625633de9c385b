//! Worker threads for independent explorations.
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
}

/// Runs `f(worker_state, item)` for every item, each worker on its own thread
/// with a large stack. A panic in a worker is a harness failure.
pub fn par<T, S, R>(
    items: Vec<T>,
    init: impl Fn(usize) -> S + Sync,
    f: impl Fn(&mut S, usize, &T) -> R + Sync,
) -> Vec<R>
where
    T: Sync,
    R: Send,
{
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..threads().min(items.len().max(1)) {
            let (next, out, items, init, f) = (&next, &out, &items, &init, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut state = init(w);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            let Some(item) = items.get(i) else { break };
                            let r = f(&mut state, i, item);
                            out.lock().expect("lock").push((i, r));
                        }
                        std::mem::forget(state);
                    }));
                    if r.is_err() {
                        crate::report::broken("worker panicked");
                    }
                })
                .expect("spawn");
        }
    });
    let mut v = out.into_inner().expect("lock");
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
