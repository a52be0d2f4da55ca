//! L10: encoding and decoding of stored records.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::{
    all::All, all_but_manage_authority::AllButManageAuthority, close_swig_authority::CloseSwigAuthority, manage_authority::ManageAuthority,
    program::Program, program_all::ProgramAll, program_curated::ProgramCurated, program_scope::ProgramScope, replace_authority::ReplaceAuthority,
    sol_destination_limit::SolDestinationLimit, sol_limit::SolLimit, sol_recurring_destination_limit::SolRecurringDestinationLimit,
    sol_recurring_limit::SolRecurringLimit, stake_all::StakeAll, stake_limit::StakeLimit, stake_recurring_limit::StakeRecurringLimit,
    sub_account::SubAccount, sub_account_v2::*, token_destination_limit::TokenDestinationLimit, token_limit::TokenLimit,
    token_recurring_destination_limit::TokenRecurringDestinationLimit, token_recurring_limit::TokenRecurringLimit, Action,
};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, AuthorityType};
use swig_state::{role::Position, sub_account_v2::SubAccountV2, swig::Swig, IntoBytes, Transmutable, TransmutableMut};

/// Encode and decode of one record type: `$n` is its published size, `$sum`
/// the sum of the sizes of its fields.
macro_rules! record {
    ($name:ident, $t:ty, $n:expr, [$($field:expr),*] $(, $fix:expr)?) => {
        harness! { #[kani::unwind(150)] $name {
            #[allow(unused_mut)]
            let mut b: Buf<{ $n + 16 }> = Buf::any();
            $( ($fix)(&mut b.0); )?
            ob!("the record has its published size", <$t>::LEN == $n);
            ob!("the record is nothing but its fields", core::mem::size_of::<$t>() == $n && 0 $(+ $field)* == $n);
            let n = len_upto($n + 16);
            let r = unsafe { <$t>::load_unchecked(&b.0[..n]) };
            reach!("decoded", r.is_ok());
            ob!("bytes of exactly the record's size are decoded, all others refused", r.is_ok() == (n == $n));
            if let Ok(rec) = r {
                let out = rec.into_bytes();
                ob!("a record can be encoded", out.is_ok());
                let out = out.unwrap();
                ob!("encoding yields exactly the record's size", out.len() == $n);
                let i: usize = any();
                assume(i < $n);
                ob!("encoding yields the record's bytes and no others", out[i] == b.0[i] && out.as_ptr() == rec as *const $t as *const u8);
            }
        }}
    };
}
macro_rules! record_mut {
    ($name:ident, $t:ty, $n:expr $(, $fix:expr)?) => {
        harness! { #[kani::unwind(150)] $name {
            #[allow(unused_mut)]
            let mut b: Buf<{ $n + 16 }> = Buf::any();
            $( ($fix)(&mut b.0); )?
            let before = b;
            let n = len_upto($n + 16);
            let at = b.0.as_ptr();
            let r = unsafe { <$t>::load_mut_unchecked(&mut b.0[..n]) };
            ob!("bytes of exactly the record's size are decoded for modification, all others refused", r.is_ok() == (n == $n));
            if let Ok(rec) = r { ob!("in place", rec as *const $t as *const u8 == at) }
            let i: usize = any();
            assume(i < $n + 16);
            ob!("decoding changes nothing", b.0[i] == before.0[i]);
        }}
    };
}
//# fn IntoBytes / Transmutable of Swig
record!(wallet, Swig, 48, [1, 1, 32, 2, 4, 1, 3, 4]);
//# fn IntoBytes / Transmutable of Position
record!(role, Position, 16, [2, 2, 2, 2, 4, 4]);
//# fn IntoBytes / Transmutable of Action
record!(action, Action, 8, [2, 2, 4]);
//# fn IntoBytes / Transmutable of SubAccountV2 (state)
record!(sub_account_state, SubAccountV2, 72, [1, 1, 1, 1, 4, 32, 32]);
//# fn IntoBytes / Transmutable of SolLimit
record!(sol_limit, SolLimit, 8, [8]);
//# fn IntoBytes / Transmutable of StakeLimit
record!(stake_limit, StakeLimit, 8, [8]);
//# fn IntoBytes / Transmutable of SolRecurringLimit
record!(sol_recurring, SolRecurringLimit, 32, [8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of StakeRecurringLimit
record!(stake_recurring, StakeRecurringLimit, 32, [8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of SolDestinationLimit
record!(sol_destination, SolDestinationLimit, 40, [32, 8]);
//# fn IntoBytes / Transmutable of SolRecurringDestinationLimit
record!(sol_recurring_destination, SolRecurringDestinationLimit, 64, [32, 8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of TokenLimit
record!(token_limit, TokenLimit, 40, [32, 8]);
//# fn IntoBytes / Transmutable of TokenRecurringLimit
record!(token_recurring, TokenRecurringLimit, 64, [32, 8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of TokenDestinationLimit
record!(token_destination, TokenDestinationLimit, 72, [32, 32, 8]);
//# fn IntoBytes / Transmutable of TokenRecurringDestinationLimit
record!(token_recurring_destination, TokenRecurringDestinationLimit, 96, [32, 32, 8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of Program
record!(program, Program, 32, [32]);
//# fn IntoBytes / Transmutable of ProgramCurated
record!(program_curated, ProgramCurated, 32, [32]);
//# fn IntoBytes / Transmutable of ProgramScope
record!(program_scope, ProgramScope, 144, [16, 16, 8, 8, 32, 32, 8, 8, 8, 8]);
//# fn IntoBytes / Transmutable of ReplaceAuthority
record!(replace_authority, ReplaceAuthority, 8, [4, 4]);
//# fn IntoBytes / Transmutable of SubAccount
record!(sub_account, SubAccount, 72, [32, 1, 1, 2, 4, 32], |b: &mut [u8]| b[33] &= 1);
//# fn IntoBytes / Transmutable of SubAccountV2All
record!(v2_all, SubAccountV2All, 8, [4, 4]);
//# fn IntoBytes / Transmutable of SubAccountV2Sign
record!(v2_sign, SubAccountV2Sign, 8, [4, 4]);
//# fn IntoBytes / Transmutable of SubAccountV2Withdraw
record!(v2_withdraw, SubAccountV2Withdraw, 8, [4, 4]);
//# fn IntoBytes / Transmutable of SubAccountV2Toggle
record!(v2_toggle, SubAccountV2Toggle, 8, [4, 4]);
//# fn IntoBytes / Transmutable of ED25519Authority
record!(ed25519, ED25519Authority, 32, [32]);
//# fn IntoBytes / Transmutable of Ed25519SessionAuthority
record!(ed25519_session, Ed25519SessionAuthority, 80, [32, 32, 8, 8]);
//# fn IntoBytes / Transmutable of CreateEd25519SessionAuthority
record!(ed25519_session_create, CreateEd25519SessionAuthority, 72, [32, 32, 8]);
//# fn IntoBytes / Transmutable of Secp256k1Authority
record!(secp256k1, Secp256k1Authority, 40, [33, 3, 4]);
//# fn IntoBytes / Transmutable of Secp256k1SessionAuthority
record!(secp256k1_session, Secp256k1SessionAuthority, 88, [33, 3, 4, 32, 8, 8]);
//# fn IntoBytes / Transmutable of CreateSecp256k1SessionAuthority
record!(secp256k1_session_create, CreateSecp256k1SessionAuthority, 104, [64, 32, 8]);
//# fn IntoBytes / Transmutable of Secp256r1Authority
record!(secp256r1, Secp256r1Authority, 40, [33, 3, 4]);
//# fn IntoBytes / Transmutable of Secp256r1SessionAuthority
record!(secp256r1_session, Secp256r1SessionAuthority, 88, [33, 3, 4, 32, 8, 8]);
//# fn IntoBytes / Transmutable of CreateSecp256r1SessionAuthority
record!(secp256r1_session_create, CreateSecp256r1SessionAuthority, 80, [33, 7, 32, 8]);
//# fn IntoBytes / Transmutable of ProgramExecAuthority
record!(program_exec, ProgramExecAuthority, 80, [32, 1, 7, 40]);
//# fn IntoBytes / Transmutable of ProgramExecSessionAuthority
record!(program_exec_session, ProgramExecSessionAuthority, 128, [32, 1, 7, 40, 32, 8, 8]);
//# fn IntoBytes / Transmutable of CreateProgramExecSessionAuthority
record!(program_exec_session_create, CreateProgramExecSessionAuthority, 128, [32, 1, 7, 40, 32, 8, 8]);
//# fn TransmutableMut::load_mut_unchecked
record_mut!(wallet_mut, Swig, 48);
//# fn TransmutableMut::load_mut_unchecked
record_mut!(role_mut, Position, 16);
//# fn TransmutableMut::load_mut_unchecked
record_mut!(token_recurring_mut, TokenRecurringLimit, 64);
//# fn TransmutableMut::load_mut_unchecked
record_mut!(scope_mut, ProgramScope, 144);

//# fn IntoBytes / Transmutable of All, AllButManageAuthority, ManageAuthority, CloseSwigAuthority, ProgramAll, StakeAll, SubAccountV2Create
harness! { markers {
    let b: Buf<8> = Buf::any();
    let n = len_upto(8);
    macro_rules! marker { ($t:ident) => {
        ob!("a marker has no bytes", $t::LEN == 0 && core::mem::size_of::<$t>() == 0 && $t.into_bytes().unwrap().is_empty());
        ob!("only no bytes decode to a marker", unsafe { $t::load_unchecked(&b.0[..n]) }.is_ok() == (n == 0));
    } }
    marker!(All);
    marker!(AllButManageAuthority);
    marker!(ManageAuthority);
    marker!(CloseSwigAuthority);
    marker!(ProgramAll);
    marker!(StakeAll);
    marker!(SubAccountV2Create);
}}
//# fn Position::new, Position accessors, Swig::new
harness! { #[kani::unwind(50)] built {
    let (id, len, num, boundary): (u32, u16, u16, u32) = (any(), any(), any(), any());
    let p = Position::new(AuthorityType::Secp256r1, id, len, num, boundary);
    let b = p.into_bytes().unwrap();
    let q = unsafe { Position::load_unchecked(b) }.unwrap();
    ob!("a role header is decoded with every field it was made with", q.id() == id && q.authority_length() == len && q.num_actions() == num && q.boundary() == boundary
        && matches!(q.authority_type(), Ok(AuthorityType::Secp256r1)));
    let (wid, bump, wbump): ([u8; 32], u8, u8) = (bytes(), any(), any());
    let s = Swig::new(wid, bump, wbump);
    let b = s.into_bytes().unwrap();
    let q = unsafe { Swig::load_unchecked(b) }.unwrap();
    ob!("a wallet header is decoded with every field it was made with", q.discriminator == 1 && q.id == wid && q.bump == bump && q.wallet_bump == wbump
        && q.roles == 0 && q.role_counter == 0 && q.sub_account_counter == 0);
}}
//# fn Create*SessionAuthority::new, ProgramExecAuthority::create_authority_data, ED25519Authority::from_create_bytes
harness! { #[kani::unwind(70)] creation_data {
    let (k, s, m): ([u8; 32], [u8; 32], u64) = (bytes(), bytes(), any());
    let c = CreateEd25519SessionAuthority::new(k, s, m);
    let b = c.into_bytes().unwrap();
    ob!("Ed25519 session creation data", b.len() == 72 && b[..32] == k && b[32..64] == s && b[64..72] == m.to_le_bytes());
    let pk: [u8; 64] = bytes();
    let c = CreateSecp256k1SessionAuthority::new(pk, s, m);
    let b = c.into_bytes().unwrap();
    ob!("secp256k1 session creation data", b.len() == 104 && b[..64] == pk && b[64..96] == s && b[96..104] == m.to_le_bytes());
    let pk: [u8; 33] = bytes();
    let c = CreateSecp256r1SessionAuthority::new(pk, s, m);
    let b = c.into_bytes().unwrap();
    ob!("secp256r1 session creation data", b.len() == 80 && b[..33] == pk && b[40..72] == s && b[72..80] == m.to_le_bytes());
    let (prefix, pl): ([u8; 40], u8) = (bytes(), any());
    let c = CreateProgramExecSessionAuthority::new(k, pl, prefix, s, m);
    let b = c.into_bytes().unwrap();
    ob!("program-exec session creation data", b.len() == 128 && b[..32] == k && b[32] == pl && b[40..80] == prefix && b[80..112] == s && b[112..120] == m.to_le_bytes());
}}
