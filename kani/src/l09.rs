//! L09: stored codes.
use crate::l08::permission;
use crate::nd::{self, *};
use swig_state::action::{program_scope::NumericType, Action, Permission};
use swig_state::authority::{authority_type_to_length, AuthorityType};
use swig_state::{role::Position, sub_account_v2::SubAccountV2, Discriminator, IntoBytes, Transmutable};

//# fn Permission::try_from(u16), Permission::try_from(&[u8]), Action::permission
harness! { permissions {
    let code: u16 = any();
    let r = Permission::try_from(code);
    reach!("a defined code", r.is_ok());
    match r {
        Ok(p) => {
            ob!("only codes 0 to 26 are defined and each has its published meaning", permission(code) == Some(p));
            ob!("encoding gives the code back", p as u16 == code);
            let (len, boundary): (u16, u32) = (any(), any());
            let a = Action::new(p, len, boundary);
            ob!("a header carries the meaning it was made with", matches!(a.permission(), Ok(q) if q == p) && a.length() == len && a.boundary() == boundary);
            let c = Action::client_new(p, len);
            ob!("so does a client's header", matches!(c.permission(), Ok(q) if q == p) && c.length() == len);
            let b = a.into_bytes().unwrap();
            ob!("the code is stored little-endian in front", b[0] as u16 | (b[1] as u16) << 8 == code);
        },
        Err(_) => ob!("a defined code is never refused", permission(code).is_none()),
    }
    let d: [u8; 5] = bytes();
    let n = len_upto(5);
    let r = Permission::try_from(&d[..n]);
    let want = if n == 2 { permission(d[0] as u16 | (d[1] as u16) << 8) } else { None };
    ob!("two bytes decode little-endian, any other length is refused", match r { Ok(p) => want == Some(p), Err(_) => want.is_none() });
    let h: Buf<8> = Buf::any();
    let a = unsafe { Action::load_unchecked(&h.0).unwrap() };
    let want = permission(h.0[0] as u16 | (h.0[1] as u16) << 8);
    ob!("a stored header decodes to the meaning of its code", match a.permission() { Ok(p) => want == Some(p), Err(_) => want.is_none() });
}}
pub fn authority(code: u16) -> Option<AuthorityType> {
    use AuthorityType::*;
    Some(match code {
        1 => Ed25519, 2 => Ed25519Session, 3 => Secp256k1, 4 => Secp256k1Session, 5 => Secp256r1, 6 => Secp256r1Session, 7 => ProgramExec, 8 => ProgramExecSession,
        _ => return Option::None,
    })
}
//# fn AuthorityType::try_from, Position::new, Position::authority_type, authority_type_to_length
harness! { authorities {
    let code: u16 = any();
    let r = AuthorityType::try_from(code);
    match r {
        Ok(t) => {
            ob!("only codes 1 to 8 are defined and each has its published meaning", authority(code) == Some(t));
            ob!("encoding gives the code back", t as u16 == code);
            let (id, len, num, boundary): (u32, u16, u16, u32) = (any(), any(), any(), any());
            let p = Position::new(t, id, len, num, boundary);
            ob!("a role header carries what it was made with", matches!(p.authority_type(), Ok(q) if q == t) && p.id() == id && p.authority_length() == len && p.num_actions() == num && p.boundary() == boundary);
            let want = match code { 1 => 32, 2 => 80, 3 => 40, 4 => 88, 5 => 40, 6 => 88, 7 => 80, _ => 128 };
            ob!("each authority type has its own record length", matches!(authority_type_to_length(&t), Ok(l) if l == want));
        },
        Err(_) => ob!("a defined code is never refused", authority(code).is_none()),
    }
    ob!("no length for no authority", authority_type_to_length(&AuthorityType::None).is_err());
    let h: Buf<16> = Buf::any();
    let p = unsafe { Position::load_unchecked(&h.0).unwrap() };
    let want = authority(h.0[0] as u16 | (h.0[1] as u16) << 8);
    ob!("a stored role header decodes to the meaning of its code", match p.authority_type() { Ok(t) => want == Some(t), Err(_) => want.is_none() });
}}
//# fn Discriminator::try_from
harness! { kinds {
    let code: u8 = any();
    let want = match code { 1 => Some(Discriminator::SwigConfigAccount), 2 => Some(Discriminator::SwigSubAccountV2), 255 => Some(Discriminator::ClosedSwigAccount), _ => None };
    match Discriminator::try_from(code) {
        Ok(d) => {
            ob!("each account kind has its published code", want == Some(d));
            ob!("encoding gives the code back", d as u8 == code);
        },
        Err(_) => ob!("a defined code is never refused", want.is_none()),
    }
}}
//# fn NumericType::from_u8, u8::from(NumericType)
harness! { numeric {
    let code: u8 = any();
    let want = match code { 0 => Some(NumericType::U8), 1 => Some(NumericType::U32), 2 => Some(NumericType::U64), 3 => Some(NumericType::U128), _ => None };
    match NumericType::from_u8(code) {
        Some(t) => {
            ob!("each numeric type has its published code", want == Some(t));
            ob!("encoding gives the code back", u8::from(t) == code);
        },
        None => ob!("a defined code is never refused", want.is_none()),
    }
}}
//# fn SubAccountV2::is_enabled, SubAccountV2::set_enabled
harness! { flag {
    let b: Buf<72> = Buf::any();
    let s = unsafe { SubAccountV2::load_unchecked(&b.0).unwrap() };
    let r = s.is_enabled();
    ob!("one is enabled, zero is disabled, everything else is refused", match r { Ok(true) => b.0[3] == 1, Ok(false) => b.0[3] == 0, Err(_) => b.0[3] > 1 });
    let mut t = SubAccountV2::new(any(), any(), any(), bytes(), bytes());
    let on: bool = any();
    t.set_enabled(on);
    ob!("a flag stored is read back", matches!(t.is_enabled(), Ok(x) if x == on));
}}
