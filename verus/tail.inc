verus! {
pub mod tails {
use vstd::prelude::*;
use super::base::*;
#[derive(Clone, Copy)]
//@enum state/src/tail/mod.rs TailReadError
impl From<TailReadError> for ProgramError {
    // which error code a refusal carries is not part of the property
    #[verifier::external_body]
    fn from(e: TailReadError) -> Self { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
//@enum state/src/tail/mod.rs TailKind
#[derive(Clone, Copy)]
//@struct state/src/tail/mod.rs TailHeader
#[derive(Clone, Copy)]
//@struct state/src/tail/rent_claimer.rs RentClaimerEntry
//@const state/src/tail/mod.rs TAIL_HEADER_LEN
//@const state/src/tail/rent_claimer.rs VERSION
//@const state/src/tail/rent_claimer.rs VALUE_LEN
//@const state/src/tail/rent_claimer.rs ENTRY_LEN
//@const state/src/tail/mod.rs MAX_TAIL_LEN
//@const state/src/tail/rent_claimer.rs KIND
pub mod rent_claimer { pub use super::*; }
// ---- standard conversions
#[verifier::external_body]
pub fn array_of<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], TailReadError>)
    ensures r is Ok <==> s@.len() == N, r is Ok ==> r->Ok_0@ == s@
{ unimplemented!() }
#[verifier::external_body]
pub fn array_ref<const N: usize>(s: &[u8]) -> (r: Result<&[u8; N], TailReadError>)
    ensures r is Ok <==> s@.len() == N, r is Ok ==> r->Ok_0@ == s@
{ unimplemented!() }
#[verifier::external_body]
pub fn arrays_equal<const N: usize>(a: [u8; N], b: [u8; N]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < N ==> #[trigger] a@[i] == b@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn u16_from_le_bytes(s: [u8; 2]) -> (r: u16) ensures r == le16(s@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn u16_to_le_bytes(v: u16) -> (r: [u8; 2]) ensures le16(r@, 0) == v { unimplemented!() }
// ---- the tail: entries of a header [kind, version, length (2), reserved (4)] and a value
pub open spec fn entry_len(s: Seq<u8>) -> int { 8 + le16(s, 2) }
pub open spec fn complete(s: Seq<u8>) -> bool { s.len() >= 8 && s.len() >= entry_len(s) }
/// What the lenient reader is to say: an error (None), no claimer, or this one.
pub open spec fn first_claimer(s: Seq<u8>) -> Option<Option<Seq<u8>>> decreases s.len() {
    if s.len() == 0 { Some(None) }
    else if !complete(s) { None }
    else if s[0] == 1 { if le16(s, 2) == 32 { Some(Some(s.subrange(8, 40))) } else { None } }
    else { first_claimer(s.skip(entry_len(s))) }
}
/// The entry of this claimer.
pub open spec fn is_entry(s: Seq<u8>, claimer: Seq<u8>) -> bool {
    s.len() == 40 && s[0] == 1 && s[1] == 1 && le16(s, 2) == 32 && s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0 && s.subrange(8, 40) == claimer
}
impl TailKind {
//@impl state/src/tail/mod.rs ^impl~TailKind$ as_u8
    ensures r == self as u8
//@end
}
impl TailHeader {
//@impl state/src/tail/mod.rs ^impl~TailHeader$ parse
    ensures
        r is Ok <==> $1@.len() >= 8,
        r is Ok ==> r->Ok_0.kind == $1@[0] && r->Ok_0.version == $1@[1] && r->Ok_0.value_len == le16($1@, 2) && r->Ok_0.payload@ == $1@.subrange(4, 8),
//@sub? bytes\[(\d)\.\.(\d)\]\s*\.try_into\(\)\s*\.map_err\(\|_\| TailReadError::TooShort\) => array_of(&bytes[\1..\2])
//@sub? u16::from_le_bytes => u16_from_le_bytes
//@end
//@impl state/src/tail/mod.rs ^impl~TailHeader$ total_len
    ensures r is Ok, r->Ok_0 == 8 + self.value_len
//@sub? \.checked_add\((.*?)\)\s*\.ok_or\((.*?)\) => .checked_add(\1).ok_or(\2)
//@end
}
impl<'a> RentClaimerEntry<'a> {
//@impl state/src/tail/rent_claimer.rs ^impl<.a>~TailDescriptor<'a>~for~RentClaimerEntry<'a>$ from_parts
    ensures
        r is Ok <==> $2@.len() == 32,
        r is Ok ==> r->Ok_0.header == $1 && r->Ok_0.claimer@ == $2@,
//@sub? value\s*\.try_into\(\)\s*\.map_err\(\|_\| TailReadError::InvalidValueLen \{\s*expected: VALUE_LEN,\s*found: value.len\(\),\s*\}\) => array_ref(value)
//@end
//@impl state/src/tail/mod.rs ^pub~trait~TailDescriptor read
    ensures
        r is Ok <==> complete($1@) && $1@[0] == 1 && le16($1@, 2) == 32,
        r is Ok ==> r->Ok_0.1 == 40 && r->Ok_0.0.claimer@ == $1@.subrange(8, 40) && r->Ok_0.0.header.kind == $1@[0]
            && r->Ok_0.0.header.version == $1@[1] && r->Ok_0.0.header.payload@ == $1@.subrange(4, 8),
//@sub Self::KIND => KIND
//@end
}
//@fn state/src/tail/mod.rs read_first_of
    ensures
        r is Ok <==> first_claimer($1@) is Some,
        r is Ok ==> (match r->Ok_0 { Some(e) => first_claimer($1@)->0 == Some(e.claimer@), None => first_claimer($1@)->0 is None }),
//@attr #[verifier::loop_isolation(false)]
//@sub <'a, T: TailDescriptor<'a>> => <'a>
//@sub Option<T> => Option<RentClaimerEntry<'a>>
//@sub \bT::KIND => KIND
//@sub \bT:: => RentClaimerEntry::
//@loop 0
        invariant first_claimer(buf@) == first_claimer(tail)
        decreases buf@.len()
//@body 0
        let ghost b = buf@;
        proof { assert(buf@.len() >= 8 && buf@.len() >= entry_len(buf@) ==> buf@.skip(entry_len(buf@)) =~= buf@.subrange(entry_len(buf@), buf@.len() as int)); }
//@start
    let ghost tail = $1@;
//@end
//@fn state/src/tail/rent_claimer.rs read
    ensures
        r is Ok <==> first_claimer($1@) is Some,
        r is Ok ==> (match r->Ok_0 { Some(c) => first_claimer($1@)->0 == Some(c@), None => first_claimer($1@)->0 is None }),
//@sub? Ok\(read_first_of::<RentClaimerEntry<'_>>\((\w+)\)\?\.map\(\|(\w+)\| ([\w.]+)\)\) => Ok(match read_first_of(\1)? { Some(\2) => Some(\3), None => None })
//@end
//@fn state/src/tail/rent_claimer.rs read_strict
    ensures
        r is Ok <==> $1@.len() == 0 || is_entry($1@, $1@.subrange(8, 40)),
        r is Ok ==> (match r->Ok_0 { Some(c) => is_entry($1@, c@), None => $1@.len() == 0 }),
//@sub? ([\w.]+) != (\[0u8; \d\]) => !arrays_equal(\1, \2)
//@sub? ([\w.]+) == (\[0u8; \d\]) => arrays_equal(\1, \2)
//@start
    proof {
        let p = $1@.subrange(4, 8);
        assert($1@.len() == 40 ==> p[0] == $1@[4] && p[1] == $1@[5] && p[2] == $1@[6] && p[3] == $1@[7]);
    }
//@end
//@fn state/src/tail/rent_claimer.rs entry
    ensures is_entry(r@, $1@)
//@sub? \(VALUE_LEN as u16\)\.to_le_bytes\(\) => u16_to_le_bytes(VALUE_LEN as u16)
//@end
}
pub use tails::*;
}
