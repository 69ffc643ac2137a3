//! Simulator-owned stand-in for the `getrandom` crate (same public API).
//!
//! Every request for operating-system entropy made by the code under test (rand's `thread_rng`
//! seeding and reseeding, `OsRng`, `from_entropy`) arrives here.  On a simulated thread the bytes come
//! from the run's own generator and may be made to fail; on any other thread the real system call is
//! made.  The state is shared by all threads of a run and is copied by `fork`; a child's entropy is
//! separated from its parent's by the simulated process path.
use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

const fn internal_error(n: u16) -> Error {
    Error(unsafe { NonZeroU32::new_unchecked(Error::INTERNAL_START + n as u32) })
}

impl Error {
    pub const UNSUPPORTED: Error = internal_error(0);
    pub const ERRNO_NOT_POSITIVE: Error = internal_error(1);
    pub const UNEXPECTED: Error = internal_error(2);
    pub const IOS_SEC_RANDOM: Error = internal_error(3);
    pub const WINDOWS_RTL_GEN_RANDOM: Error = internal_error(4);
    pub const FAILED_RDRAND: Error = internal_error(5);
    pub const NO_RDRAND: Error = internal_error(6);
    pub const WEB_CRYPTO: Error = internal_error(7);
    pub const WEB_GET_RANDOM_VALUES: Error = internal_error(8);
    pub const VXWORKS_RAND_SECURE: Error = internal_error(11);
    pub const NODE_CRYPTO: Error = internal_error(12);
    pub const NODE_RANDOM_FILL_SYNC: Error = internal_error(13);
    pub const NODE_ES_MODULE: Error = internal_error(14);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);

    #[inline]
    pub fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START {
            Some(self.0.get() as i32)
        } else {
            None
        }
    }
    #[inline]
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom::Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated entropy failure ({})", self.0)
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

/// Which requests fail: request number -> fails?
#[derive(Clone, Debug)]
pub enum FailPlan {
    Never,
    /// Fail requests with index in any [from, to) range.
    Ranges(Vec<(u64, u64)>),
}

#[derive(Debug)]
pub struct SimEntropy {
    seed: u64,
    requests: u64,
    pub fail: FailPlan,
    pub failures: u64,
    pub served: u64,
    /// Simulated process path (changes in every forked child).
    pub process: u64,
}

impl SimEntropy {
    pub fn new(seed: u64, fail: FailPlan) -> Arc<Mutex<SimEntropy>> {
        Arc::new(Mutex::new(SimEntropy {
            seed,
            requests: 0,
            fail,
            failures: 0,
            served: 0,
            process: 0,
        }))
    }
    /// Requests made so far.
    pub fn requests(&self) -> u64 {
        self.requests
    }
    fn fill(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        let idx = self.requests;
        self.requests += 1;
        if let FailPlan::Ranges(r) = &self.fail {
            if r.iter().any(|&(a, b)| idx >= a && idx < b) {
                self.failures += 1;
                return Err(Error::from(NonZeroU32::new(libc::EIO as u32).unwrap()));
            }
        }
        self.served += 1;
        let mut x = mix(mix(self.seed ^ 0x5eed_0001) ^ mix(self.process ^ 0xF0F0) ^ mix(idx.wrapping_add(77)));
        for chunk in dest.chunks_mut(8) {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let v = mix(x).to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
        Ok(())
    }
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

thread_local! {
    static SIM: RefCell<Option<Arc<Mutex<SimEntropy>>>> = const { RefCell::new(None) };
}
/// Requests answered by the real system call (must stay 0 on simulated threads).
pub static REAL_REQUESTS: AtomicU64 = AtomicU64::new(0);

/// Installs (or removes) the simulated entropy source of the calling thread.
pub fn sim_install(e: Option<Arc<Mutex<SimEntropy>>>) {
    SIM.with(|s| *s.borrow_mut() = e);
}
pub fn sim_current() -> Option<Arc<Mutex<SimEntropy>>> {
    SIM.with(|s| s.borrow().clone())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if dest.is_empty() {
        return Ok(());
    }
    let sim = SIM.try_with(|s| s.borrow().clone()).ok().flatten();
    match sim {
        Some(s) => s.lock().unwrap_or_else(|e| e.into_inner()).fill(dest),
        None => {
            REAL_REQUESTS.fetch_add(1, Ordering::SeqCst);
            let mut off = 0;
            while off < dest.len() {
                let n = unsafe {
                    libc::getrandom(dest[off..].as_mut_ptr() as *mut _, dest.len() - off, 0)
                };
                if n <= 0 {
                    return Err(Error::UNEXPECTED);
                }
                off += n as usize;
            }
            Ok(())
        }
    }
}

pub fn getrandom_uninit(dest: &mut [std::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    let d = unsafe { &mut *(dest as *mut [std::mem::MaybeUninit<u8>] as *mut [u8]) };
    for b in d.iter_mut() {
        *b = 0;
    }
    getrandom(d)?;
    Ok(d)
}
