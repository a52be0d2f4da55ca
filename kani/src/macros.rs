//! `contract!` writes a function contract on a one-line adapter that calls
//! the real function: under Kani it becomes `#[kani::requires/modifies/
//! ensures]` (discharged by `proof_for_contract`), natively the same clauses
//! are evaluated around the call, so that a counterexample can be replayed.
macro_rules! contract {
    ($(#[$m:meta])* fn $name:ident ( $($a:ident : $t:ty),* $(,)? ) -> $r:ty {
        requires { $($req:tt)* }
        modifies { $($mo:tt)* }
        old $o:tt = $oe:expr;
        $( ensures $en:literal |$res:ident| { $($ens:tt)* } )*
        call { $($call:tt)* }
    }) => {
        $(#[$m])*
        #[cfg(kani)]
        #[kani::requires($($req)*)]
        #[kani::modifies($($mo)*)]
        $( #[kani::ensures(|$res: &$r| { let _obligation = $en; let $o = old($oe); $($ens)* })] )*
        pub fn $name($($a: $t),*) -> $r { $($call)* }
        #[cfg(not(kani))]
        pub fn $name($($a: $t),*) -> $r {
            if !({ $($req)* }) { nd::assume(false) }
            let $o = $oe;
            let ret: $r = { $($call)* };
            $( { let $res = &ret; nd::ob!($en, { $($ens)* }); } )*
            ret
        }
    };
}
/// `harness!` makes a Kani proof harness; natively the same body is a test
/// that replays a counterexample.
macro_rules! harness {
    ($(#[$m:meta])* $name:ident for $f:ident $body:block) => {
        #[cfg(kani)] #[kani::proof_for_contract($f)] $(#[$m])* fn $name() $body
        #[cfg(all(test, not(kani)))] #[test] fn $name() { nd::run(|| $body) }
    };
    ($(#[$m:meta])* $name:ident $body:block) => {
        #[cfg(kani)] #[kani::proof] $(#[$m])* fn $name() $body
        #[cfg(all(test, not(kani)))] #[test] fn $name() { nd::run(|| $body) }
    };
}
/// `native!`: an oracle that is only run natively, to search for a failing
/// input where a Verus obligation fails (never counted as evidence).
macro_rules! native {
    ($name:ident $body:block) => {
        #[cfg(all(test, not(kani)))] #[test] fn $name() { nd::run(|| $body) }
    };
}
