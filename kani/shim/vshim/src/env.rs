//! The environment: other threads. Before every operation on a synchronisation
//! object the environment may take steps: any value is stored into an atomic
//! (`HAVOC`), and/or the harness's `ENV` function runs, which performs a whole
//! operation on the shared object as another thread would. `BUDGET` bounds the
//! number of environment steps per harness run.

pub static mut BUDGET: u32 = 0;
pub static mut HAVOC: bool = false;
pub static mut ENV: Option<fn()> = None;
static mut IN_ENV: bool = false;

/// Ghost log of the atomic operations of the thread under verification.
pub static mut MODS: u32 = 0;
pub static mut MOD_OLD: u64 = 0;
pub static mut MOD_NEW: u64 = 0;
pub static mut READS: u32 = 0;
pub static mut READ_LAST: u64 = 0;

pub fn in_env() -> bool {
    unsafe { IN_ENV }
}

/// True if the environment steps now.
pub fn steps() -> bool {
    unsafe {
        if BUDGET > 0 && !IN_ENV && crate::any_bool() {
            BUDGET -= 1;
            true
        } else {
            false
        }
    }
}

/// A preemption point at which whole operations of other threads may run.
pub fn preempt() {
    unsafe {
        if let Some(f) = ENV {
            if steps() {
                IN_ENV = true;
                f();
                IN_ENV = false;
            }
        }
    }
}

pub fn log_read(v: u64) {
    unsafe {
        if !IN_ENV {
            READS = READS.wrapping_add(1);
            READ_LAST = v;
        }
    }
}

pub fn log_mod(old: u64, new: u64) {
    unsafe {
        if !IN_ENV {
            MODS = MODS.wrapping_add(1);
            MOD_OLD = old;
            MOD_NEW = new;
        }
    }
}

pub fn reset_log() {
    unsafe {
        MODS = 0;
        READS = 0;
    }
}
