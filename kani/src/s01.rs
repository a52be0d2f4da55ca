//! S01: the state of a sub-account.
use crate::nd::{self, *};
use swig_state::action::{sub_account::SubAccount, Actionable};
use swig_state::{sub_account_v2::SubAccountV2, IntoBytes, Transmutable, TransmutableMut};

//# fn SubAccountV2::check_discriminator, SubAccountV2::is_enabled
harness! { reads {
    let b: Buf<72> = Buf::any();
    let s = unsafe { SubAccountV2::load_unchecked(&b.0).unwrap() };
    let r = s.check_discriminator();
    reach!("recognised", r.is_ok());
    ob!("identifies itself only with its own account-kind code", r.is_ok() == (b.0[0] == 2));
    ob!("enabled exactly for one, disabled exactly for zero, refused otherwise",
        match s.is_enabled() { Ok(true) => b.0[3] == 1, Ok(false) => b.0[3] == 0, Err(_) => b.0[3] > 1 });
}}
//# fn SubAccountV2::set_enabled
harness! { #[kani::unwind(74)] toggles {
    let before: Buf<72> = Buf::any();
    let mut b = before;
    let on: bool = any();
    let s = unsafe { SubAccountV2::load_mut_unchecked(&mut b.0).unwrap() };
    s.set_enabled(on);
    ob!("stores the canonical flag", b.0[3] == if on { 1 } else { 0 });
    let i: usize = any();
    assume(i < 72 && i != 3);
    ob!("changes nothing else", b.0[i] == before.0[i]);
}}
//# fn SubAccountV2::new
harness! { #[kani::unwind(74)] starts {
    let (bump, asset_bump, id): (u8, u8, u32) = (any(), any(), any());
    let (swig, sub): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let s = SubAccountV2::new(bump, asset_bump, id, swig, sub);
    ob!("starts recognised and enabled", s.check_discriminator().is_ok() && matches!(s.is_enabled(), Ok(true)));
    ob!("holds exactly what it was given", s.bump == bump && s.asset_bump == asset_bump && s.subacc_id == id && s.swig_id == swig && s.sub_account == sub);
    let b = s.into_bytes().unwrap();
    ob!("the stored form is the canonical one", b.len() == 72 && b[0] == 2 && b[1] == bump && b[2] == asset_bump && b[3] == 1
        && b[4..8] == id.to_le_bytes() && b[8..40] == swig && b[40..72] == sub);
}}
//# fn SubAccount::match_data, SubAccount::new, SubAccount::new_for_creation
harness! { #[kani::unwind(74)] first_generation {
    let key: [u8; 32] = bytes();
    let other: [u8; 32] = bytes();
    let p = SubAccount::new(key);
    reach!("matches", p.match_data(&other));
    ob!("matches exactly its recorded sub-account", p.match_data(&other) == (key == other));
    ob!("matches creation exactly while no sub-account is recorded", p.match_data(&[]) == (key == [0u8; 32]));
    let c = SubAccount::new_for_creation();
    ob!("a permission for creation has no sub-account yet", c.match_data(&[]) && c.sub_account == [0u8; 32] && !c.enabled && c.role_id == 0 && c.swig_id == [0u8; 32]);
}}
