//! Runtimes. `paused()` is a single-threaded runtime whose clock is virtual: time only moves when
//! no task can run, so a timeout that fires proves that nothing else will ever happen before it.
use std::future::Future;
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};

pub fn paused() -> Runtime {
    Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .expect("runtime")
}

pub fn threads(n: usize) -> Runtime {
    Builder::new_multi_thread()
        .worker_threads(n)
        .enable_all()
        .build()
        .expect("runtime")
}

/// Virtual-time limit for "this must resolve". Far above every delay the cases contain.
pub const VIRT: Duration = Duration::from_secs(100 * 3600);

/// Virtual time after which everything that was going on has ended, with waits of any length.
pub const QUIET: u64 = 3_600_000;

pub async fn within<F: Future>(what: &str, f: F) -> Result<F::Output, crate::Fail> {
    within_for(VIRT, what, f).await
}

pub async fn within_for<F: Future>(limit: Duration, what: &str, f: F) -> Result<F::Output, crate::Fail> {
    match tokio::time::timeout(limit, f).await {
        Ok(v) => Ok(v),
        Err(_) => Err(crate::Fail::Safety(format!("never resolved: {}", what))),
    }
}

/// Generated scheduling perturbation: 0 nothing, 1..=3 that many yields, >3 virtual sleep.
pub async fn perturb(n: u8) {
    match n {
        0 => {}
        1..=3 => {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        }
        4..=7 => tokio::time::sleep(Duration::from_millis((n - 3) as u64)).await,
        n if virtual_time() => tokio::time::sleep(LONG[(n as usize - 8) % LONG.len()]).await,
        n => tokio::time::sleep(Duration::from_millis((n - 3) as u64)).await,
    }
}

/// whether this runs on `paused()`: all other runtimes have several threads
fn virtual_time() -> bool {
    tokio::runtime::Handle::current().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread
}

/// long waits, free on the virtual clock
const LONG: [Duration; 5] = [
    Duration::from_millis(250),
    Duration::from_millis(1300),
    Duration::from_secs(6),
    Duration::from_secs(31),
    Duration::from_secs(61),
];

/// `perturb` values, with a long wait now and then
pub fn wait() -> impl proptest::strategy::Strategy<Value = u8> + Clone {
    use proptest::prelude::*;
    prop_oneof![12 => Just(0u8), 12 => 0u8..8, 1 => 8u8..13]
}

/// Lets everything that can run without the clock passing `ms` happen.
pub async fn settle(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}
