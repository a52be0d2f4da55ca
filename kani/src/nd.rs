//! Symbolic inputs.  Under Kani every `any` is an unconstrained value of its
//! type; natively (replay) the same call returns the next value of the
//! counterexample that Kani printed, so that the harness body that failed in
//! the verifier is run, unchanged, against the real code.

#[cfg(kani)]
pub use self::k::*;
#[cfg(kani)]
mod k {
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    macro_rules! reach_ {
        ($name:literal, $c:expr) => {
            kani::cover($c, concat!("reach: ", $name))
        };
    }
    pub(crate) use reach_ as reach;
    macro_rules! ob_ {
        ($name:expr, $c:expr) => {
            kani::assert($c, concat!("obligation: ", $name))
        };
    }
    pub(crate) use ob_ as ob;
}

#[cfg(not(kani))]
pub use self::n::*;
#[cfg(not(kani))]
mod n {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    enum Src {
        /// The counterexample file: one value per line, comma-separated bytes.
        File(VecDeque<Vec<u8>>),
        /// Edge-biased random values (search for a failing input where the
        /// verifier reports a failed obligation without one).
        Random { state: u64, pool: Vec<Vec<u8>>, log: Vec<Vec<u8>> },
    }
    thread_local! {
        static Q: RefCell<Option<Src>> = RefCell::new(None);
    }
    struct AssumptionNotMet;
    fn rnd(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn next(n: usize) -> Vec<u8> {
        Q.with(|q| match q.borrow_mut().as_mut() {
            Some(Src::File(q)) => {
                // Values the verifier left unconstrained are absent: any does.
                let mut b = q.pop_front().unwrap_or_default();
                b.resize(n, 0);
                b
            },
            Some(Src::Random { state, pool, log }) => {
                let mut b = vec![0u8; n];
                match rnd(state) % 10 {
                    0 => {},
                    1 => b.fill(0xff),
                    2 | 3 if n > 0 => b[0] = rnd(state) as u8,
                    4 if n > 0 => {
                        let p = (rnd(state) as usize) % (8 * n);
                        b[p / 8] = 1 << (p % 8);
                    },
                    5 if n > 0 => {
                        b.fill(0xff);
                        b[n - 1] = 0x7f;
                    },
                    6 | 7 if !pool.is_empty() => {
                        let p = &pool[(rnd(state) as usize) % pool.len()];
                        let k = p.len().min(n);
                        b[..k].copy_from_slice(&p[..k]);
                        if n > 0 && n <= 16 {
                            let mut w = [0u8; 16];
                            w[..n].copy_from_slice(&b);
                            let d = rnd(state) % 5;
                            let v = u128::from_le_bytes(w).wrapping_add(d as u128).wrapping_sub(2);
                            b.copy_from_slice(&v.to_le_bytes()[..n]);
                        } else if n > 0 && rnd(state) % 2 == 0 {
                            let p = (rnd(state) as usize) % n;
                            b[p] ^= 1 << (rnd(state) % 8);
                        }
                    },
                    8 if n > 1 => {
                        for x in b.iter_mut().take(2) {
                            *x = rnd(state) as u8
                        }
                    },
                    _ => {
                        for x in b.iter_mut() {
                            *x = rnd(state) as u8
                        }
                    },
                }
                pool.push(b.clone());
                log.push(b.clone());
                b
            },
            None => vec![0u8; n],
        })
    }
    /// Runs a harness body natively: on the values of REPLAY_VALUES, or on
    /// REPLAY_RANDOM many random ones (the first failing one is written to
    /// REPLAY_OUT).
    pub fn run(body: fn()) {
        let var = |n: &str| std::env::var(n).ok();
        if let Some(n) = var("REPLAY_RANDOM").and_then(|n| n.parse::<u64>().ok()) {
            let seed: u64 = var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            std::panic::set_hook(Box::new(|_| {}));
            for i in 0..n {
                let state = seed.wrapping_mul(0x1000003).wrapping_add(i << 20);
                Q.with(|q| *q.borrow_mut() = Some(Src::Random { state, pool: vec![], log: vec![] }));
                if let Err(e) = std::panic::catch_unwind(body) {
                    if e.downcast_ref::<AssumptionNotMet>().is_some() {
                        continue;
                    }
                    let log = Q.with(|q| match q.borrow_mut().take() {
                        Some(Src::Random { log, .. }) => log,
                        _ => vec![],
                    });
                    if let Some(p) = var("REPLAY_OUT") {
                        let t: Vec<String> = log
                            .iter()
                            .map(|b| b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
                            .collect();
                        std::fs::write(p, t.join("\n") + "\n").unwrap();
                    }
                    let _ = std::panic::take_hook();
                    std::panic::resume_unwind(e);
                }
            }
            let _ = std::panic::take_hook();
            return;
        }
        if let Some(p) = var("REPLAY_VALUES") {
            let v = std::fs::read_to_string(p)
                .unwrap()
                .lines()
                .filter(|l| !l.starts_with('#'))
                .map(|l| l.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
                .collect();
            Q.with(|q| *q.borrow_mut() = Some(Src::File(v)));
            if let Err(e) = std::panic::catch_unwind(body) {
                if e.downcast_ref::<AssumptionNotMet>().is_some() {
                    eprintln!("REPLAY-ASSUMPTION-NOT-MET");
                    return;
                }
                eprintln!("REPLAY-REPRODUCED");
                std::panic::resume_unwind(e);
            }
        }
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    macro_rules! int { ($($t:ty),*) => { $(impl Nd for $t {
        fn nd() -> Self { <$t>::from_le_bytes(next(core::mem::size_of::<$t>()).try_into().unwrap()) }
    })* } }
    int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize);
    impl Nd for bool {
        fn nd() -> Self {
            next(1)[0] & 1 == 1
        }
    }
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    pub fn fill(b: &mut [u8]) {
        b.copy_from_slice(&next(b.len()))
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        next(N).try_into().unwrap()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumptionNotMet));
        }
    }
    macro_rules! reach_ {
        ($name:literal, $c:expr) => {
            let _ = $c;
        };
    }
    pub(crate) use reach_ as reach;
    macro_rules! ob_ {
        ($name:expr, $c:expr) => {
            if !($c) {
                panic!(concat!("obligation: ", $name))
            }
        };
    }
    pub(crate) use ob_ as ob;
}

/// Byte strings of symbolic length up to N, in an 8-aligned (16-aligned)
/// buffer.
#[repr(C, align(16))]
#[derive(Clone, Copy, PartialEq)]
pub struct Buf<const N: usize>(pub [u8; N]);
impl<const N: usize> Buf<N> {
    pub fn any() -> Self {
        Buf(bytes::<N>())
    }
    pub fn zero() -> Self {
        Buf([0u8; N])
    }
}
/// A symbolic length of at most `n`.
pub fn len_upto(n: usize) -> usize {
    let l: usize = any::<u16>() as usize;
    assume(l <= n);
    l
}
