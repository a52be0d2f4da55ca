//! The ghost side of the runtime.
pub use ghost_syscalls::{KECCAK, RECOVER, SHA256};
pub fn start() {
    ghost_syscalls::reset();
    #[cfg(not(kani))]
    unsafe {
        ghost_syscalls::NEXT = Some(crate::nd::fill)
    }
}
