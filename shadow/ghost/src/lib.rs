//! Contracts of the Solana runtime's syscalls, stated as ghost code: each one
//! records what it was given and returns an unconstrained result.  The
//! recorded inputs are what the obligations speak about ("the hash was taken
//! over exactly these bytes"); nothing is assumed about the results.
#![allow(static_mut_refs)]
pub const CAP: usize = 256;
/// The last call of a hash syscall.
pub struct Hash {
    pub calls: usize,
    pub input: [u8; CAP],
    pub len: usize,
    pub out: [u8; 32],
    pub failed: bool,
}
pub struct Recover {
    pub calls: usize,
    pub hash: [u8; 32],
    pub id: u64,
    pub sig: [u8; 64],
    pub out: [u8; 64],
    pub failed: bool,
}
const H: Hash = Hash { calls: 0, input: [0; CAP], len: 0, out: [0; 32], failed: false };
pub static mut SHA256: Hash = H;
pub static mut KECCAK: Hash = H;
pub static mut RECOVER: Recover = Recover { calls: 0, hash: [0; 32], id: 0, sig: [0; 64], out: [0; 64], failed: false };
pub static mut STACK_HEIGHT: u64 = 1;
/// Natively: where the values of a replay come from.
#[cfg(not(kani))]
pub static mut NEXT: Option<fn(&mut [u8])> = None;
fn any<const N: usize>() -> [u8; N] {
    #[cfg(kani)]
    return kani::any();
    #[cfg(not(kani))]
    {
        let mut b = [0u8; N];
        unsafe {
            if let Some(f) = NEXT {
                f(&mut b)
            }
        }
        b
    }
}
pub fn reset() {
    unsafe {
        SHA256 = H;
        KECCAK = H;
        RECOVER = Recover { calls: 0, hash: [0; 32], id: 0, sig: [0; 64], out: [0; 64], failed: false };
        STACK_HEIGHT = 1;
        WATCH = core::ptr::null();
        EFFECT = None;
        INVOKE.calls = 0;
    }
}
/// Where set, SHA-256 is stated as collision-free for one watched byte: the
/// digest tells how long the input is and, if the watched byte is part of it,
/// its value.
pub static mut WATCH: *const u8 = core::ptr::null();
unsafe fn watched(vals: &[&[u8]]) -> [u8; 32] {
    let (mut d, mut len, mut i) = ([0; 32], 0, 0);
    while i < vals.len() {
        let (from, n) = (vals[i].as_ptr() as usize, vals[i].len());
        if WATCH as usize >= from && (WATCH as usize) < from + n {
            d[0] = 1;
            d[1] = *WATCH;
        }
        len += n;
        i += 1;
    }
    d[2] = len as u8;
    d[3] = (len >> 8) as u8;
    d
}
unsafe fn hash(log: &mut Hash, vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let vals = core::slice::from_raw_parts(vals as *const &[u8], n as usize);
    log.calls += 1;
    if !WATCH.is_null() {
        let d = watched(vals);
        core::ptr::copy_nonoverlapping(d.as_ptr(), out, 32);
        return 0;
    }
    log.len = 0;
    for v in vals {
        log.input[log.len..log.len + v.len()].copy_from_slice(v);
        log.len += v.len();
    }
    log.failed = any::<1>()[0] & 1 == 1;
    log.out = any();
    if log.failed {
        return 1;
    }
    core::ptr::copy_nonoverlapping(log.out.as_ptr(), out, 32);
    0
}
pub unsafe fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    hash(&mut SHA256, vals, n, out)
}
pub unsafe fn sol_keccak256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    hash(&mut KECCAK, vals, n, out)
}
pub unsafe fn sol_secp256k1_recover(h: *const u8, id: u64, sig: *const u8, out: *mut u8) -> u64 {
    RECOVER.calls += 1;
    RECOVER.id = id;
    RECOVER.hash = *(h as *const [u8; 32]);
    RECOVER.sig = *(sig as *const [u8; 64]);
    RECOVER.failed = any::<1>()[0] & 1 == 1;
    RECOVER.out = any();
    if RECOVER.failed {
        return 1;
    }
    core::ptr::copy_nonoverlapping(RECOVER.out.as_ptr(), out, 64);
    0
}
/// Compares `n` bytes of both strings, wherever they end.
pub unsafe fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, out: *mut i32) {
    let mut r = 0i32;
    let mut i = 0;
    while i < n as usize {
        let (x, y) = (*a.add(i), *b.add(i));
        if r == 0 && x != y {
            r = x as i32 - y as i32
        }
        i += 1;
    }
    *out = r;
}
pub unsafe fn sol_curve_validate_point(_curve: u64, _p: *const u8, _r: *mut u8) -> u64 {
    (any::<1>()[0] & 1) as u64
}
pub unsafe fn sol_get_stack_height() -> u64 {
    STACK_HEIGHT
}

// For whole instruction handlers (bin/shadow.py, rewrite 4).
/// A cross-program call: recorded, and answered by `EFFECT`, which states what
/// the called program may do.
pub struct Call {
    pub calls: usize,
    pub instruction: *const u8,
    pub infos: *const u8,
    pub infos_len: u64,
    pub seeds: *const u8,
    pub seeds_len: u64,
}
pub static mut INVOKE: Call = Call { calls: 0, instruction: core::ptr::null(), infos: core::ptr::null(), infos_len: 0, seeds: core::ptr::null(), seeds_len: 0 };
pub static mut EFFECT: Option<fn(&Call)> = None;
/// Clock (slot) and the other sysvars' contents.
pub static mut SLOT: u64 = 0;
/// The minimum balance per account: `lamports_per_byte_year * (128 + len)`
/// with an exemption threshold of one year.
pub static mut RENT: u64 = 0;
pub unsafe fn sol_invoke_signed_c(ix: *const u8, infos: *const u8, infos_len: u64, seeds: *const u8, seeds_len: u64) -> u64 {
    INVOKE.calls += 1;
    INVOKE.instruction = ix;
    INVOKE.infos = infos;
    INVOKE.infos_len = infos_len;
    INVOKE.seeds = seeds;
    INVOKE.seeds_len = seeds_len;
    if let Some(f) = EFFECT {
        f(&INVOKE)
    }
    0
}
pub unsafe fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    // slot, epoch_start_timestamp, epoch, leader_schedule_epoch, unix_timestamp
    *(out as *mut [u64; 5]) = [SLOT, 0, 0, 0, 0];
    0
}
pub unsafe fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    // lamports_per_byte_year, exemption_threshold, burn_percent
    *(out as *mut u64) = RENT;
    *(out.add(8) as *mut f64) = 1.0;
    *out.add(16) = 0;
    0
}
pub unsafe fn sol_get_epoch_schedule_sysvar(_out: *mut u8) -> u64 { 1 }
pub unsafe fn sol_get_fees_sysvar(_out: *mut u8) -> u64 { 1 }
pub unsafe fn sol_get_sysvar(_id: *const u8, _out: *mut u8, _offset: u64, _len: u64) -> u64 { 1 }
/// A program address: an arbitrary function of the seeds and the program, here
/// the first recorded question's answer (`PDA`) or a refusal.
pub struct Pda {
    pub calls: usize,
    pub seeds: [u8; CAP],
    pub seeds_len: usize,
    pub program: [u8; 32],
    pub out: [u8; 32],
    pub bump: u8,
    pub refuse: bool,
}
pub static mut PDA: Pda = Pda { calls: 0, seeds: [0; CAP], seeds_len: 0, program: [0; 32], out: [0; 32], bump: 0, refuse: false };
unsafe fn pda(seeds: *const u8, n: u64, program: *const u8, out: *const u8) -> u64 {
    let seeds = core::slice::from_raw_parts(seeds as *const &[u8], n as usize);
    PDA.calls += 1;
    PDA.seeds_len = 0;
    for v in seeds {
        PDA.seeds[PDA.seeds_len..PDA.seeds_len + v.len()].copy_from_slice(v);
        PDA.seeds_len += v.len();
    }
    PDA.program = *(program as *const [u8; 32]);
    if PDA.refuse {
        return 1;
    }
    *(out as *mut [u8; 32]) = PDA.out;
    0
}
pub unsafe fn sol_create_program_address(seeds: *const u8, n: u64, program: *const u8, out: *const u8) -> u64 {
    pda(seeds, n, program, out)
}
pub unsafe fn sol_try_find_program_address(seeds: *const u8, n: u64, program: *const u8, out: *const u8, bump: *const u8) -> u64 {
    let r = pda(seeds, n, program, out);
    *(bump as *mut u8) = PDA.bump;
    r
}
pub unsafe fn sol_memcpy_(dst: *mut u8, src: *const u8, n: u64) { core::ptr::copy_nonoverlapping(src, dst, n as usize) }
pub unsafe fn sol_memmove_(dst: *mut u8, src: *const u8, n: u64) { core::ptr::copy(src, dst, n as usize) }
pub unsafe fn sol_memset_(s: *mut u8, c: u8, n: u64) { core::ptr::write_bytes(s, c, n as usize) }
pub unsafe fn sol_log_(_m: *const u8, _n: u64) {}
pub unsafe fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
pub unsafe fn sol_log_compute_units_() {}
pub unsafe fn sol_log_pubkey(_p: *const u8) {}
pub unsafe fn sol_log_data(_p: *const u8, _n: u64) {}
pub unsafe fn sol_remaining_compute_units() -> u64 { 0 }
pub unsafe fn sol_set_return_data(_p: *const u8, _n: u64) {}
pub unsafe fn sol_get_return_data(_p: *mut u8, _n: u64, _id: *mut [u8; 32]) -> u64 { 0 }
