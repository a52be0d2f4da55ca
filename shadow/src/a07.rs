//! A07: program-execution authorities.
use crate::acct::Acct;
use crate::nd::{self, *};
use crate::sys;
use pinocchio::account_info::AccountInfo;
use pinocchio::sysvars::instructions::INSTRUCTIONS_ID;
use swig_state::authority::{programexec::{session::*, *}, AuthorityInfo};

/// The instructions sysvar as the runtime writes it: the instruction count,
/// the offset of every instruction, the instructions (account count, metas,
/// program, data length, data), the index of the running instruction.
pub struct Ix {
    pub accounts: usize,
    pub data: usize,
}
pub const CAP: usize = 256;
pub fn sysvar(ixs: &[Ix], current: u16, content: &mut [u8; CAP], at: &mut [usize]) -> usize {
    let mut put16 = |o: usize, v: usize| {
        content[o] = v as u8;
        content[o + 1] = (v >> 8) as u8;
    };
    put16(0, ixs.len());
    let mut o = 2 + 2 * ixs.len();
    let mut i = 0;
    while i < ixs.len() {
        put16(2 + 2 * i, o);
        at[i] = o;
        put16(o, ixs[i].accounts);
        o += 2 + 33 * ixs[i].accounts + 32;
        put16(o, ixs[i].data);
        o += 2 + ixs[i].data;
        i += 1;
    }
    put16(o, current as usize);
    o + 2
}
pub fn eq(a: &[u8], at: usize, b: &[u8], n: usize) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < n {
        if a[at + i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
macro_rules! authenticates {
    ($name:ident, $t:ty, $n:literal, $ixs:expr, $current:literal, $given:expr, $target:expr) => {
        harness! { #[kani::unwind(132)] $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let prefix = before[32] as usize;
            assume(prefix <= 40); // what creation guarantees (A08)
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let ixs: &[Ix] = $ixs;
            let mut at = [0usize; 3];
            let mut content: [u8; CAP] = bytes();
            let len = sysvar(ixs, $current, &mut content, &mut at);
            let mut config: Acct<0> = Acct::new(bytes(), bytes(), []);
            let mut wallet: Acct<0> = Acct::new(bytes(), bytes(), []);
            // what lies at the sysvar's address is what the runtime wrote
            assume(!eq(&config.key, 0, &INSTRUCTIONS_ID, 32) && !eq(&wallet.key, 0, &INSTRUCTIONS_ID, 32));
            let mut sv: Acct<CAP> = Acct::new(bytes(), bytes(), content);
            sv.data_len = len as u64;
            let infos = [config.info(), wallet.info(), sv.info()];
            let given: u8 = $given;
            let target: Option<u8> = $target;
            let payload = [given, target.unwrap_or(0)];
            let r = auth.authenticate(&infos, &payload[..1 + target.is_some() as usize], &[], any());
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            let index = match target { Some(t) => t as usize, None => if $current == 0 { 9 } else { $current - 1 } };
            let mut want = false;
            if index < $current {
                let o = at[index];
                let (k, d) = (ixs[index].accounts, ixs[index].data);
                if k >= 2 {
                    let p = o + 2 + 33 * k;
                    let mut pre = prefix <= d;
                    let mut i = 0;
                    while i < 40 {
                        if i < prefix && i < d && content[p + 34 + i] != before[40 + i] { pre = false }
                        i += 1;
                    }
                    want = given == 2 && eq(&sv.key, 0, &INSTRUCTIONS_ID, 32) && eq(&content, p, &before, 32) && pre
                        && eq(&content, o + 3, &config.key, 32) && eq(&content, o + 3 + 33, &wallet.key, 32);
                }
            }
            reach!("accepted, where an acceptable instruction is referred to", r.is_ok() || !(given == 2 && index < $current && ixs[index].accounts >= 2));
            ob!("only an earlier instruction of the configured program, with the configured prefix, naming the wallet's own accounts first, authenticates", r.is_err() || want);
            ob!("and such an instruction does authenticate", r.is_ok() || !want);
            ob!("the record is unchanged", eq(&after, 0, &before, $n));
        }}
    };
}
const A: &[Ix] = &[Ix { accounts: 2, data: 4 }, Ix { accounts: 3, data: 2 }];
//# fn ProgramExecAuthority::authenticate, program_exec_authenticate
//# bounded preceding: transactions of two instructions, with two and three accounts and four and two bytes of data
authenticates!(preceding, ProgramExecAuthority, 80, A, 1, 2, None);
//# bounded preceding2: as preceding
authenticates!(preceding2, ProgramExecAuthority, 80, A, 2, 2, None);
//# bounded named: as preceding
authenticates!(named, ProgramExecAuthority, 80, A, 2, 2, Some(0));
//# bounded none_before: as preceding
authenticates!(none_before, ProgramExecAuthority, 80, A, 0, 2, None);
//# bounded not_earlier: as preceding
authenticates!(not_earlier, ProgramExecAuthority, 80, A, 1, 2, { let t: u8 = any(); assume(t >= 1); Some(t) });
//# bounded one_account: an instruction with one account
authenticates!(one_account, ProgramExecAuthority, 80, &[Ix { accounts: 1, data: 4 }], 1, 2, None);
//# bounded no_account: an instruction without accounts and data
authenticates!(no_account, ProgramExecAuthority, 80, &[Ix { accounts: 0, data: 0 }], 1, 2, None);
//# bounded long_data: an instruction with 41 bytes of data
authenticates!(long_data, ProgramExecAuthority, 80, &[Ix { accounts: 2, data: 41 }], 1, 2, None);
//# bounded other_index: as preceding
authenticates!(other_index, ProgramExecAuthority, 80, A, 2, { let g: u8 = any(); assume(g != 2); g }, None);
//# fn ProgramExecSessionAuthority::authenticate
//# bounded session: as preceding
authenticates!(session, ProgramExecSessionAuthority, 128, A, 2, 2, None);
//# bounded session_named: as preceding
authenticates!(session_named, ProgramExecSessionAuthority, 128, A, 2, 2, Some(0));
//# bounded session_one: an instruction with one account
authenticates!(session_one, ProgramExecSessionAuthority, 128, &[Ix { accounts: 1, data: 4 }], 1, 2, None);
macro_rules! sized {
    ($name:ident, $t:ty, $n:literal) => {
        harness! { #[kani::unwind(132)] $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let mut a: Acct<0> = Acct::new(bytes(), bytes(), []);
            let infos = [a.info()];
            let payload: [u8; 5] = bytes();
            let len = len_upto(5);
            assume(len == 0 || len > 2);
            let r = auth.authenticate(&infos, &payload[..len], &[], any());
            ob!("a payload that is not one or two bytes long is refused", r.is_err());
        }}
    };
}
//# fn ProgramExecAuthority::authenticate (payload size)
sized!(sized_plain, ProgramExecAuthority, 80);
//# fn ProgramExecSessionAuthority::authenticate (payload size)
sized!(sized_session, ProgramExecSessionAuthority, 128);

macro_rules! same {
    ($name:ident, $t:ty, $n:literal, $cap:literal, $from:literal, $len:expr) => {
        harness! { #[kani::unwind(132)] $name {
            let record: [u8; $n] = bytes();
            let prefix = record[32] as usize;
            assume(prefix <= 40);
            let auth: $t = unsafe { core::mem::transmute(record) };
            let data: [u8; $cap] = bytes();
            let len = len_upto($cap);
            let size: fn(usize) -> usize = $len;
            let mut want = len == size(prefix) && eq(&data, 0, &record, 33);
            let mut i = 0;
            while i < 40 {
                if i < prefix && data[$from + i] != record[40 + i] { want = false }
                i += 1;
            }
            let got = auth.match_data(&data[..len]);
            reach!("the same", got);
            ob!("the same authority only with the same program, prefix length and prefix", !got || want);
            ob!("the same program and prefix are recognised", got || !want);
        }}
    };
}
//# fn ProgramExecAuthority::match_data
same!(same_plain, ProgramExecAuthority, 80, 84, 40, |_| 80);
//# fn ProgramExecSessionAuthority::match_data
same!(same_session, ProgramExecSessionAuthority, 128, 84, 33, |p| 33 + p);
