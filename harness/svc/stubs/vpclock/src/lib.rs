//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
//! A clock the replay harness can set forward.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant, SystemTime};
static OFF: AtomicU64 = AtomicU64::new(0);
static FROZEN: std::sync::Mutex<Option<(SystemTime, Instant)>> = std::sync::Mutex::new(None);
pub fn advance(d: Duration) { OFF.fetch_add(d.as_nanos() as u64, SeqCst); }
/// stops the clock (only `advance` moves it), at the given wall time
pub fn freeze(t: SystemTime) { *FROZEN.lock().unwrap() = Some((t, Instant::now())); OFF.store(0, SeqCst); }
fn off() -> Duration { Duration::from_nanos(OFF.load(SeqCst)) }
pub fn system() -> SystemTime { FROZEN.lock().unwrap().map_or_else(SystemTime::now, |f| f.0) + off() }
pub fn instant() -> Instant { FROZEN.lock().unwrap().map_or_else(Instant::now, |f| f.1) + off() }
pub trait Elapsed { type Out; fn vp_elapsed(&self) -> Self::Out; }
impl Elapsed for Instant { type Out = Duration; fn vp_elapsed(&self) -> Duration { instant().saturating_duration_since(*self) } }
impl Elapsed for SystemTime { type Out = Result<Duration, std::time::SystemTimeError>; fn vp_elapsed(&self) -> Self::Out { system().duration_since(*self) } }
