#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be reviewed and edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
A = "state/src/action/"
AU = "state/src/authority/"

# ------------------------------------------------------------------ spending
prop("L01", "A one-time spending cap can never be exceeded",
 "An operation charged against a one-time cap (SOL, token, stake, SOL-to-destination, token-to-destination) is allowed exactly when its amount is at most what is left of the cap, and an allowed operation reduces what is left by exactly its amount. A refused operation leaves what is left unchanged. Nothing else in the cap's record (its mint, its destination) ever changes, so the sum of everything ever allowed never exceeds the original cap.",
 ["inputs", "histories"], "every cap value, every amount, every sequence of charges",
 "Each test charges a handful of amounts; a comparison or subtraction that is wrong only at a boundary, on a large value or after a refused charge passes them.",
 [A+"sol_limit.rs", A+"token_limit.rs", A+"stake_limit.rs", A+"sol_destination_limit.rs", A+"token_destination_limit.rs"],
 [("SolLimit::run", A+"sol_limit.rs"), ("TokenLimit::run", A+"token_limit.rs"), ("StakeLimit::run", A+"stake_limit.rs"), ("SolDestinationLimit::run", A+"sol_destination_limit.rs"), ("TokenDestinationLimit::run", A+"token_destination_limit.rs")],
 [("amount", "what is left of the cap", A+"*_limit.rs")], ["return value of run and the record afterwards"])
prop("L02", "A recurring cap never allows more than its amount in one window",
 "A recurring SOL, token or stake cap is replenished, to exactly its per-window amount, only when more than a full window has passed since the start of the window it last recorded, and the new window it records starts at a multiple of the window length and contains the current slot. A charge is allowed exactly when its amount is at most what is then left, an allowed charge reduces what is left by exactly its amount, and a refused charge never makes more available than before. The per-window amount, the window length and the mint never change.",
 ["inputs", "histories"], "every record with a positive window, every amount, every current slot, every sequence of charges at any slots",
 "Window arithmetic is sampled at a few slots; an off-by-one at the window edge, a wrong reset target or a reset on a refused charge needs exact slot/amount relations to show.",
 [A+"sol_recurring_limit.rs", A+"token_recurring_limit.rs", A+"stake_recurring_limit.rs"],
 [("SolRecurringLimit::run", A+"sol_recurring_limit.rs"), ("TokenRecurringLimit::run", A+"token_recurring_limit.rs"), ("StakeRecurringLimit::run", A+"stake_recurring_limit.rs")],
 [("current_amount", "what is left in the window", A+"*_recurring_limit.rs"), ("last_reset", "start slot of the recorded window", A+"*_recurring_limit.rs")], ["return value of run and the record afterwards"])
prop("L03", "A recurring per-destination cap never allows more than its amount in a window",
 "A recurring SOL-to-destination or token-to-destination cap is replenished, to exactly its per-window amount, only when more than a full window of slots has passed since its last replenishment, and the replenishment is then recorded at the current slot. A charge is allowed exactly when its amount is at most what is then left, an allowed charge reduces what is left by exactly its amount, and a refused charge never makes more available than before. No slot value, including one earlier than the recorded replenishment, makes the charge replenish early or abort; destination, mint, per-window amount and window never change.",
 ["inputs", "histories"], "every record with a positive window, every amount, every current slot, every sequence of charges at any slots",
 "The interesting cases are exact relations between slot, last reset and window (including a last reset in the future), which the sampled slots of the tests do not reach.",
 [A+"sol_recurring_destination_limit.rs", A+"token_recurring_destination_limit.rs"],
 [("SolRecurringDestinationLimit::run", A+"sol_recurring_destination_limit.rs"), ("TokenRecurringDestinationLimit::run", A+"token_recurring_destination_limit.rs")],
 [("current_amount", "what is left in the window", A+"*_recurring_destination_limit.rs"), ("last_reset", "slot of the last replenishment", A+"*_recurring_destination_limit.rs")], ["return value of run and the record afterwards"])
prop("L04", "Program-scope spending stays within the scope's limit",
 "A program scope with a plain limit allows a charge exactly when what has been spent so far plus the charge is at most the limit, and then adds exactly the charge to what has been spent. A program scope with a recurring limit does the same per window: the spent total restarts at zero only when more than a full window has passed since the recorded window start, and without a slot the charge is refused. A scope without limits allows every charge and an unknown scope kind refuses every charge; a refused charge never lowers what has been spent in the running window, and the target account, program, limit, window, kind and balance-field position never change.",
 ["inputs", "histories"], "every scope record with a limit below 2^128-1 (and a positive window where recurring), every 128-bit amount, every slot",
 "128-bit amounts near the limit, exact window edges and unknown kinds are outside the sampled inputs.",
 [A+"program_scope.rs"], [("ProgramScope::run", A+"program_scope.rs")],
 [("current_amount", "spent so far", A+"program_scope.rs"), ("scope_type", "kind of scope", A+"program_scope.rs")], ["return value of run and the record afterwards"])
prop("L05", "A program-scope balance is read exactly as configured, or refused",
 "Reading the balance of a scoped account yields the little-endian unsigned integer stored in the configured byte range of the account data when the range has exactly the width of the configured numeric type and lies inside the data, zero when no range is configured, and an error in every other case. Storing an amount in a scope, or validating one, is refused exactly when it does not fit the configured numeric type. No configured range or data length makes the read abort or touch bytes outside the account data, and configuring a range is refused unless it is non-empty and ends within 1024 bytes.",
 ["inputs"], "every configured range and numeric type, every account data content and length",
 "Ranges that are inverted, huge or one byte off, and numeric type codes beyond those defined, are never tried by tests, and the read uses unchecked indexing.",
 [A+"program_scope.rs", "state/src/util.rs"], [("ProgramScope::read_account_balance", A+"program_scope.rs"), ("read_numeric_field!", "state/src/util.rs"), ("ProgramScope::set_current_amount / validate_amount / set_balance_field_indices", A+"program_scope.rs")],
 [("balance_field_start/end", "configured byte range", A+"program_scope.rs"), ("numeric_type", "configured integer width", A+"program_scope.rs")], ["returned value or error"])
prop("L06", "A permission restricted to a subject applies to that subject only",
 "A permission restricted to a mint, a destination, a mint-and-destination pair, a program, a target account, a sub-account or a sub-account number matches a subject exactly when the subject given is the one recorded in the permission, compared over all of its bytes. Subject data that is too short to name a subject never matches and never aborts the check. The curated-program permission accepts exactly the programs on its published list.",
 ["inputs"], "every permission record of every restricted kind, every subject byte string of any length",
 "Tests compare a few equal and unequal subjects; ignoring one byte of a 32- or 64-byte key, or mishandling a short subject, is invisible to them.",
 [A+"token_limit.rs", A+"token_recurring_limit.rs", A+"program.rs", A+"program_scope.rs", A+"sol_destination_limit.rs", A+"sol_recurring_destination_limit.rs", A+"token_destination_limit.rs", A+"token_recurring_destination_limit.rs", A+"sub_account.rs", A+"sub_account_v2.rs", A+"program_curated.rs"],
 [("Actionable::match_data of each kind", A+"*.rs"), ("matches_destination", A+"*destination_limit.rs"), ("ProgramCurated::is_curated_program", A+"program_curated.rs")],
 observe=["result of the match"])
prop("L07", "Permission lookup returns the first permission that fits, and only that",
 "Looking up a permission of some kind (and subject) in a role's permission list returns the first entry of exactly that kind whose subject matches, with exactly the bytes stored for it, and returns nothing when the role has no such entry. Looking it up for modification addresses that same entry in place and changes no other byte of the list; listing all permissions, or all of a kind, returns each such entry once and in order. The same answer is given by the read-only and the modifiable view of a role.",
 ["inputs"], "every well-formed permission list (bounded length in the automated check), every kind and subject",
 "Lists that mix kinds, repeat kinds with different subjects, or hold adjacent entries of different lengths form far more shapes than the tests enumerate.",
 ["state/src/role.rs", A+"mod.rs"], [("Role::get_action", "state/src/role.rs"), ("RoleMut::get_action", "state/src/role.rs"), ("RoleMut::get_action_mut", "state/src/role.rs"), ("Role::get_all_actions / get_all_actions_of_type", "state/src/role.rs"), ("ActionLoader::find_action", A+"mod.rs")],
 [("actions", "serialized permission list of a role", "state/src/role.rs")], ["returned reference and list bytes afterwards"])
prop("L08", "A permission can only be granted with a well-formed, unspent configuration",
 "Validation of a permission's configuration accepts only data of exactly the record size of that kind, and for every kind and every byte string it returns an answer instead of aborting. Recurring caps are accepted only with the full per-window amount available and no recorded window start (plain recurring caps), or with no more available than the per-window amount and a non-zero window (per-destination recurring caps); sub-account permissions only in their initial state and with a defined wire form. An undefined permission kind, and the kind 'none', are never accepted.",
 ["inputs"], "every permission code, every byte string up to one more byte than the largest record",
 "Short or over-long data, almost-valid records, and the cross product of kind and length are not enumerated by tests.",
 [A+"mod.rs", A+"*.rs"], [("ActionLoader::validate_layout", A+"mod.rs"), ("Actionable::valid_layout", A+"*.rs")],
 observe=["result of the validation"])
prop("L09", "Stored type codes are closed and decode to exactly one meaning",
 "Every stored permission code, authority-type code, account-kind code, numeric-type code and stored enabled/disabled flag decodes to the one meaning whose code it is, and every other value is refused; encoding a meaning and decoding it again gives the same meaning. Distinct meanings have distinct codes, and the published code of each meaning never changes.",
 ["inputs"], "every 8-, 16- and 64-bit code value",
 "Tests decode a few valid codes; a decode range widened by one (undefined behaviour here, since the decode transmutes) or two swapped codes pass them.",
 ["state/src/lib.rs", A+"mod.rs", AU+"mod.rs", A+"program_scope.rs", "state/src/sub_account_v2.rs"],
 [("Permission::try_from", A+"mod.rs"), ("AuthorityType::try_from", AU+"mod.rs"), ("Discriminator::try_from", "state/src/lib.rs"), ("NumericType::from_u8", A+"program_scope.rs")],
 observe=["decoded value or error"])
prop("L10", "Stored records keep every field through encoding and decoding",
 "For every kind of stored record (wallet header, role header, permission header, every permission and authority record, session-creation data, sub-account state) encoding yields exactly the record's fixed size, decoding those bytes yields a record equal in every field, and decoding bytes of any other length is refused. Encoding never reads outside the record, and different field values always encode to different bytes.",
 ["inputs"], "every value of every field of every record kind, every byte length",
 "A declared size that disagrees with the in-memory size, or a field outside the encoded range, only shows for particular kinds and values.",
 ["state/src/transmute.rs", "state/src/swig.rs", "state/src/role.rs", A+"*.rs", AU+"*.rs", "state/src/sub_account_v2.rs", "no-padding/src/lib.rs"],
 [("Transmutable::load_unchecked", "state/src/transmute.rs"), ("IntoBytes::into_bytes", "state/src/*.rs")],
 observe=["encoded bytes, decoded record"])
# ------------------------------------------------------------------ authentication
prop("A01", "A plain Ed25519 authority admits only its own key holder's signature",
 "Authentication with an Ed25519 authority succeeds exactly when the one-byte payload names an account of the transaction that carries a transaction signature and whose address equals the authority's public key in all 32 bytes. A payload of any other length, an index outside the account list, a non-signer or a different address is refused. Authentication changes nothing in the authority record.",
 ["inputs"], "every authority record, every payload, every account list (bounded length in the automated check)",
 "Tests try a few accounts; a comparison that ignores some key bytes or an index confusion passes them.",
 [AU+"ed25519.rs"], [("ED25519Authority::authenticate", AU+"ed25519.rs"), ("ed25519_authenticate", AU+"ed25519.rs")],
 observe=["result of authentication"])
prop("A02", "A session never lasts longer than the authority allows",
 "Starting a session with any session-capable authority succeeds only if the requested duration is at most the authority's maximum, and then the session expires exactly the requested number of slots after the current slot and belongs to exactly the key given. A refused start leaves the running session's key and expiry untouched, and starting a session never changes the authority's identity, maximum duration or replay counter. Authorities without sessions refuse to start one.",
 ["inputs", "histories"], "every authority record of every session kind, every key, current slot and duration",
 "Durations exactly at, above or far above the maximum, and slots near the end of the range, are exact relations the tests sample once or not at all.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs", AU+"programexec/session.rs"],
 [("AuthorityInfo::start_session of each session kind", AU+"*.rs")],
 [("current_session_expiration", "last slot of the session", AU+"*.rs"), ("session_key", "key holding the session", AU+"*.rs")], ["result and record afterwards"])
prop("A03", "A session admits only the session key's signature, and only until it expires",
 "Session authentication with any session-capable authority succeeds exactly when the current slot is not past the session's expiry and the payload names an account of the transaction that carries a signature and whose address equals the session key. An empty payload (and, for Ed25519 and program-execution sessions, any payload not of exactly one byte), an index outside the account list, an expired session, a non-signer or a different address is refused without aborting. Session authentication changes nothing in the authority record, and authorities without sessions always refuse it.",
 ["inputs", "histories"], "every authority record of every session kind, every payload, slot and account list (bounded length in the automated check)",
 "Expiry is an exact slot relation and there are four parallel implementations; tests cover each with one or two cases.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs", AU+"programexec/session.rs"],
 [("AuthorityInfo::authenticate_session of each session kind", AU+"*.rs"), ("ed25519_authenticate", AU+"ed25519.rs")],
 observe=["result of authentication"])
prop("A04", "A Secp256k1 signature is accepted at most once and only while fresh",
 "Authentication with a Secp256k1 authority (plain or session-capable) succeeds only if the payload carries the counter value that directly follows the stored one, a signing slot at most 60 slots in the past and not in the future, a signature in low-S form, and the key recovered from that signature over the signed message equals the stored key. The signed message covers the request data, every account of the transaction with its signer and writable flags, the signing slot and the counter. On success exactly the stored counter advances, to the payload's counter; on refusal nothing in the record changes. Too-short payloads and account lists longer than 64 are refused.",
 ["inputs", "histories"], "every record, every payload, every current slot, account list and transaction data (lengths bounded in the automated check)",
 "Replay and age are exact relations between four numbers and the stored state over a history; tests hold a couple of points.",
 [AU+"secp256k1.rs"], [("secp_authority_authenticate", AU+"secp256k1.rs"), ("secp_session_authority_authenticate", AU+"secp256k1.rs"), ("secp256k1_authenticate", AU+"secp256k1.rs")],
 [("signature_odometer", "counter of the last accepted signature", AU+"secp256k1.rs")], ["result of authentication and the record afterwards"])
prop("A05", "A Secp256r1 authentication is accepted at most once and only while fresh",
 "Authentication with a Secp256r1 authority (plain or session-capable) succeeds only if the payload carries the counter value that directly follows the stored one, a signing slot at most 60 slots in the past and not in the future, and the verification evidence of the same transaction names the stored public key and the expected message, which covers the request data, every account of the transaction with its signer and writable flags, the signing slot and the counter (directly, or through the passkey message that commits to it). On success exactly the stored counter advances, to the payload's counter; on refusal nothing in the record changes. Too-short payloads are refused without aborting.",
 ["inputs", "histories"], "every record, every payload, every current slot (lengths bounded in the automated check)",
 "Replay and age are exact relations over a history; tests hold a couple of points.",
 [AU+"secp256r1.rs"], [("secp256r1 authenticate functions", AU+"secp256r1.rs")],
 [("signature_odometer", "counter of the last accepted signature", AU+"secp256r1.rs")], ["result of authentication and the record afterwards"])
prop("A06", "Secp256r1 evidence is accepted only for exactly the expected key and message",
 "The check of a Secp256r1 verification instruction accepts instruction data only if it describes exactly one signature whose key, message and signature are all embedded in that same instruction, key and message at the canonical positions, the embedded public key equals the expected one in all bytes, and the embedded message equals the expected message in content and length. Any other instruction data, of any length, is refused without aborting (a message shorter than a hash may be refused too).",
 ["inputs"], "every instruction data byte string and every expected key; message lengths bounded in the automated check",
 "Offsets that redirect the precompile to other bytes or other instructions are the classic bypass; tests hand-build a few layouts.",
 [AU+"secp256r1.rs"], [("verify_secp256r1_instruction_data", AU+"secp256r1.rs")],
 observe=["result of the check"])
prop("A07", "A program-execution authority trusts only the configured instruction",
 "Authentication with a program-execution authority (plain or session-capable) succeeds only if the instruction it refers to was sent to exactly the configured program, the instruction data starts with exactly the configured prefix, and the first two accounts of the instruction are the wallet's own configuration and wallet accounts. Two authorities are treated as the same only if their program and their configured prefix agree. Creating such an authority is refused when its prefix length exceeds the stored prefix capacity or its program is the wallet program itself.",
 ["inputs"], "every configuration, every instruction data, account list and prefix length",
 "The prefix comparison, self-call ban and account positions are byte-exact relations; tests try one accepted and a few refused cases.",
 [AU+"programexec/mod.rs", AU+"programexec/session.rs"], [("program_exec_authenticate", AU+"programexec/mod.rs"), ("ProgramExecAuthority::match_data / set_into_bytes", AU+"programexec/mod.rs"), ("ProgramExecSessionAuthority::match_data / set_into_bytes", AU+"programexec/session.rs")],
 observe=["result of authentication, match, creation"])
prop("A08", "A new authority is stored exactly as requested and starts with a clean state",
 "Creating an authority of any type stores exactly the identity (in canonical compressed form where the type compresses keys), session key and maximum session length requested, with the replay counter at zero. Creation data of the wrong size is refused and leaves the target bytes unchanged. A freshly created session-capable authority has no running session, whatever the storage held before.",
 ["inputs"], "every creation data of every authority type, every previous content of the target storage",
 "Tests create authorities in zeroed storage with one key; stale storage and odd sizes are not sampled.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs", AU+"programexec/mod.rs", AU+"programexec/session.rs"],
 [("Authority::set_into_bytes of each type", AU+"*.rs")],
 observe=["stored record after creation"])
prop("A09", "An authority is recognised by its full identity only",
 "An authority recognises identity data exactly when it denotes the same identity: the same 32-byte Ed25519 key, the same secp256k1 key in compressed or uncompressed form, the same compressed secp256r1 key. Data of any other length or content is not recognised and never aborts the check, and the identity an Ed25519, secp256k1 or secp256r1 authority reports is one it recognises.",
 ["inputs"], "every authority record of every type, every identity byte string up to 65 bytes",
 "Tests match a few keys; partial comparison or a length confusion between key forms passes them.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs"], [("AuthorityInfo::match_data / identity of each type", AU+"*.rs"), ("compress", AU+"secp256k1.rs")],
 observe=["result of the match"])
# ------------------------------------------------------------------ role store
prop("R01", "Adding a role appends exactly that role and touches nothing else",
 "Adding a role to a wallet succeeds only if its permission list is well formed and non-empty and its authority data is valid; the wallet then holds all earlier roles byte for byte unchanged, followed by the new role with the requested authority, exactly the requested permissions in order, and an id never used before. The role count and the next id each grow by exactly one. A refused addition leaves the role count, the next id and all existing roles unchanged.",
 ["inputs", "histories"], "every wallet and every authority/permission request (number of roles and permissions bounded in the automated check)",
 "The storage is a hand-managed byte region; offset mistakes show only for particular combinations of authority size, permission sizes and existing roles.",
 ["state/src/swig.rs"], [("SwigBuilder::add_role", "state/src/swig.rs"), ("calculate_num_actions", "state/src/swig.rs")],
 [("roles / role_counter", "role count and next id", "state/src/swig.rs"), ("role_buffer", "serialized roles", "state/src/swig.rs")], ["wallet bytes afterwards"])
prop("R02", "Removing a role removes exactly that role",
 "Removing a role by id succeeds exactly when the wallet holds it; afterwards that id is gone, every other role is still found under its id with the same authority, permissions and order, and the role count is one lower while the next id is unchanged. The bytes freed at the end are zero and their number is reported exactly. Removing an unknown id is refused and changes nothing.",
 ["inputs", "histories"], "every wallet (number and size of roles bounded in the automated check), every id",
 "Later roles are shifted and their end offsets rewritten; a mistake shows only for particular positions and sizes.",
 ["state/src/swig.rs"], [("SwigBuilder::remove_role", "state/src/swig.rs")],
 [("role_buffer", "serialized roles", "state/src/swig.rs")], ["wallet bytes afterwards"])
prop("R03", "Every role is found under its own id with its own authority and permissions",
 "On every well-formed wallet, looking a role up by id gives exactly the stored role with that id (its authority record and permission bytes) or nothing if there is none, identically in the read-only and modifiable view; the modifiable view gives access to that role's bytes only. Looking a role id up by authority identity gives the id of the first role whose authority recognises the identity, or nothing.",
 ["inputs"], "every well-formed wallet (number of roles bounded in the automated check), every id and identity",
 "Parsing walks raw bytes with unchecked indexing; which role is returned for which id depends on layouts tests do not enumerate.",
 ["state/src/swig.rs"], [("SwigWithRoles::get_role", "state/src/swig.rs"), ("Swig::get_mut_role", "state/src/swig.rs"), ("SwigWithRoles::lookup_role_id", "state/src/swig.rs"), ("SwigWithRoles::find_program_scope_by_target", "state/src/swig.rs")],
 observe=["returned role"])
prop("R04", "The end of the roles is computed safely on arbitrary account bytes",
 "For every account content, computing where the roles end either fails or yields the offset just after the last of the declared number of roles, each role header lying entirely within the account and each role ending at or after its own header and at or before the account's end. Splitting an account gives exactly the header, the bytes up to that offset and the remaining bytes, without loss or overlap. No content, however malformed, makes it read outside the account or abort.",
 ["inputs"], "every byte string as account data, every declared number of roles",
 "Malformed and adversarial account contents cannot be sampled meaningfully.",
 ["state/src/swig.rs"], [("Swig::roles_end_offset", "state/src/swig.rs"), ("Swig::split_parts / split_parts_mut / split_roles_and_tail(_mut)", "state/src/swig.rs"), ("SwigWithRoles::from_bytes", "state/src/swig.rs")],
 observe=["returned offset or error"])
prop("R05", "A permission list is accepted only if it parses completely",
 "A permission list offered for a role is accepted only if it consists of one or more complete permission entries, each of a known kind with a valid configuration, that together cover the list exactly, and the number of entries is counted exactly. A list with two entries for the same second-generation sub-account right and number, or two creation rights, is refused, and a list is never refused as duplicate otherwise. No byte string makes the check read outside the list.",
 ["inputs"], "every byte string as permission list (length bounded in the automated check)",
 "Truncated entries, entries longer than the rest of the list and duplicate pairs at a distance are not enumerated by tests.",
 ["state/src/swig.rs", A+"mod.rs"], [("SwigBuilder::calculate_num_actions", "state/src/swig.rs"), ("ActionLoader::reject_duplicate_v2_scoped", A+"mod.rs")],
 observe=["result of add_role / reject_duplicate_v2_scoped"])
prop("R06", "The rent claimer, once written, is read back exactly or not at all",
 "The trailing entry written for a rent claimer reads back as exactly that claimer, under both the strict and the lenient reader. The strict reader accepts exactly the empty tail and a tail consisting of one such entry, and refuses every other byte string; the lenient reader returns the first rent-claimer entry of a well-formed tail, skipping entries of unknown kind. No byte string makes a reader abort or read outside the tail.",
 ["inputs"], "every byte string as tail (length bounded in the automated check for the lenient reader), every claimer",
 "Truncated, padded, re-ordered and unknown-kind tails are far more numerous than the tests.",
 ["state/src/tail/mod.rs", "state/src/tail/rent_claimer.rs"], [("rent_claimer::read_strict / read / entry", "state/src/tail/rent_claimer.rs"), ("read_first_of, AnyTailEntry::read(_all)", "state/src/tail/mod.rs")],
 observe=["claimer returned or error"])
prop("R07", "The account tail survives every resize of the role region",
 "A tail taken from an account and restored after the account has been resized is byte for byte the same tail, placed at the end of the account (or at the requested offset), and restoring it changes no other byte except stale tail bytes it reports or clears. Taking an empty or unusable tail, and restoring into an account too small to hold it, is refused or a no-op, never an abort.",
 ["inputs"], "every tail, every old and new account size (bounded in the automated check)",
 "Shrinking and growing by amounts smaller or larger than the tail produce overlapping moves that tests sample only once.",
 ["state/src/tail/mod.rs"], [("SavedTail::take / restore / restore_at", "state/src/tail/mod.rs")],
 observe=["account bytes afterwards"])
prop("R08", "Each account of a wallet has its own address derivation",
 "The address seeds of the wallet configuration, the wallet address, first-generation sub-accounts and second-generation sub-account state and asset accounts are built from a fixed distinct label followed by exactly the wallet id or key, the role or sub-account number and the bump given, in this order, with nothing omitted. The seeds used for signing are the same as those used for derivation, so for different wallets, numbers or account kinds the seed sequences differ. A new wallet starts with the given id and bumps, no roles, next role id zero and no sub-accounts.",
 ["inputs"], "every wallet id/key, number and bump",
 "A seed builder that drops or reorders a component still derives a valid address for the one id a test uses.",
 ["state/src/swig.rs", "state/src/sub_account_v2.rs"], [("swig_account_seeds* / swig_wallet_address_seeds* / sub_account_*seeds*", "state/src/swig.rs"), ("Swig::new", "state/src/swig.rs"), ("SubAccountV2::new", "state/src/sub_account_v2.rs")],
 observe=["seed lists"])
# ------------------------------------------------------------------ instruction payload
prop("I01", "A compact instruction payload is decoded exactly as encoded",
 "Encoding a list of inner instructions (at most 255, each with at most 254 accounts and 65535 data bytes) and decoding it against the account list yields the same number of instructions in the same order, each with the same program, the same accounts in the same order and the same data. Nothing is decoded beyond the declared number of instructions.",
 ["inputs"], "every list of instructions (sizes bounded in the automated check), every account list",
 "Length bytes, two-byte lengths at odd offsets and index widths only matter for particular shapes.",
 ["instructions/src/lib.rs", "instructions/src/compact_instructions.rs"], [("CompactInstructions::into_bytes", "instructions/src/compact_instructions.rs"), ("InstructionIterator::next", "instructions/src/lib.rs")],
 observe=["decoded instructions"])
prop("I02", "Inner instructions never gain signer or writable rights",
 "In a decoded inner instruction an account is marked as signer exactly when it is the wallet's own signer or already signed the outer transaction, and it is not one of the restricted keys; it is marked writable exactly when it is writable in the outer transaction. The instruction is reported as using the wallet's signature exactly when one of its accounts is the wallet's signer and is marked as signer. The accounts passed on are exactly the outer accounts the indices name.",
 ["inputs"], "every payload, account list, wallet signer and restricted-key list (sizes bounded in the automated check)",
 "Privilege marking depends on the combination of three sources per account; tests cover few combinations.",
 ["instructions/src/lib.rs"], [("InstructionIterator::parse_next_instruction", "instructions/src/lib.rs")],
 observe=["account metas of the decoded instruction"])
prop("I03", "A malformed instruction payload is refused, never misread",
 "For every byte string offered as a payload, decoding yields for each declared instruction either an instruction whose program, accounts and data all lie inside the payload and the account list, or an error; an empty payload, an index outside the account list and a truncated account list, length or data are errors. Decoding never aborts and never reads outside the payload, and running a decoded instruction never reads an account it does not have.",
 ["inputs"], "every payload byte string and account list (lengths bounded in the automated check)",
 "The decoder indexes raw bytes unchecked; truncation at each possible point is not enumerated by tests.",
 ["instructions/src/lib.rs"], [("InstructionIterator::new / next / read_u8 / read_u16 / read_slice", "instructions/src/lib.rs")],
 observe=["decoded instruction or error"])
prop("I04", "Compacting instructions preserves which accounts and programs they use",
 "When a client compacts instructions into a shared account list of at most 256 entries, each index in the result resolves, in the returned account list, to exactly the program or account the original instruction named, the data is unchanged, and the accounts given initially keep their positions and flags. The wallet's own account (and, for sub-accounts, the sub-account) is never newly marked as a signer.",
 ["inputs"], "every list of instructions and initial accounts giving a list of at most 256 entries",
 "Shared accounts across instructions and programs that also appear as accounts create index relations tests do not enumerate.",
 ["instructions/src/compact_instructions.rs"], [("compact_instructions / compact_instructions_sub_account", "instructions/src/compact_instructions.rs")],
 observe=["returned account list and indices"])
# ------------------------------------------------------------------ helpers
prop("X01", "Account checks accept exactly the accounts they describe",
 "Each account check (owned by, owned by the system, owned by the wallet program, key equals, bytes equal, writable, signer, writable signer, no lamports, no data, no balance) succeeds exactly when the account has the described property, comparing all bytes of a key, and otherwise returns the caller's error. No check changes the account.",
 ["inputs"], "every account key, owner, flag combination, lamports and data length",
 "A check that compares fewer bytes or tests a different flag passes tests that use a few typical accounts.",
 ["assertions/src/lib.rs"], [("sol_assert_bytes_eq, check_owner, check_self_owned, check_system_owner, check_key_match, check_bytes_match, check_writable, check_signer, check_writable_signer, check_zero_lamports, check_zero_data, check_zero_balance", "assertions/src/lib.rs")],
 observe=["result of the check"])
prop("S01", "A sub-account acts only while it is in a defined, enabled state",
 "A second-generation sub-account record identifies itself only with its own account-kind code; it reports enabled exactly for the stored flag one, disabled exactly for zero, and refuses every other stored flag. Enabling or disabling stores exactly the canonical flag and changes nothing else, and a new record starts enabled with exactly the given number, wallet id, address and bumps. A first-generation sub-account permission matches exactly its recorded sub-account.",
 ["inputs", "histories"], "every stored record, every enable/disable sequence",
 "Only a few records and flag values are tried by tests.",
 ["state/src/sub_account_v2.rs", A+"sub_account.rs"], [("SubAccountV2::check_discriminator / is_enabled / set_enabled / new", "state/src/sub_account_v2.rs")],
 observe=["reported state"])
# ------------------------------------------------------------------ on-chain program
PR = "program/src/"
prop("P01", "Wallet-version detection never confuses generations",
 "An account is treated as a current-generation wallet exactly when its header carries a non-zero wallet bump with zero padding after it, independently of every other byte of the account, in particular of the number of sub-accounts created. Shorter data is never treated as current generation.",
 ["inputs"], "every account content and length",
 "The detection reads a window of bytes shared with older layouts; only a few header values are sampled.",
 [PR+"lib.rs"], [("is_swig_v2", PR+"lib.rs")], observe=["result of the detection"])
prop("P02", "Editing a role's permissions changes that role's permissions only",
 "Replacing, appending to, or removing from a role's permission list leaves every other role's header (apart from its stored end offset), authority and permissions byte for byte unchanged, leaves the edited role's id and authority unchanged, and leaves the edited role with exactly the resulting permission list and its exact count. A change that would leave the role without permissions, with a malformed list or with duplicate second-generation sub-account rights is refused.",
 ["inputs", "histories"], "every wallet and every edit (number and size of roles bounded in the automated check)",
 "The edit shifts the bytes of all later roles and rewrites offsets; mistakes depend on sizes and positions.",
 [PR+"actions/update_authority_v1.rs"], [("perform_replace_all_operation / perform_add_actions_operation / perform_remove_by_type_operation / perform_remove_by_index_operation", PR+"actions/update_authority_v1.rs")],
 observe=["role bytes afterwards"])
prop("P03", "Only a role entitled to manage authorities can change who controls the wallet",
 "Adding, removing, updating or replacing an authority succeeds only if the acting role authenticates and holds the unrestricted permission or the authority-management permission (or, for replacing, the dedicated one for that role), except that a role may always remove itself, and the root role is never removed. No other role's authority, permissions or id changes.",
 ["inputs", "histories"], "every wallet, acting role, request and account list",
 "The handlers combine authentication, permission lookup and byte surgery; the combinations of role contents and requests are not enumerable by tests.",
 [PR+"actions/add_authority_v1.rs", PR+"actions/remove_authority_v1.rs", PR+"actions/update_authority_v1.rs", PR+"actions/replace_authority_v1.rs"],
 [("add_authority_v1 / remove_authority_v1 / update_authority_v1 / replace_authority_v1", PR+"actions/*.rs")], observe=["wallet bytes after the handler"])
prop("P04", "A signed transaction spends only what the acting role is allowed to",
 "After a successful sign request by a role without the unrestricted permissions, every lamport, token and staked amount that left the wallet's accounts has been charged to a permission of that role that allows it, every program called is one the role may call, the wallet address still belongs to the system program, and the wallet's own records (other than what was charged) and the non-balance bytes of its token, stake and scoped accounts are unchanged. If any part is not covered, the whole request is refused.",
 ["inputs", "histories", "programs"], "every effect the called programs may have, amount and limit (role lists, account lists and instruction lists of a few fixed shapes in the automated check)",
 "The called programs are arbitrary; tests use a few cooperative ones.",
 [PR+"actions/sign_v2.rs", PR+"lib.rs", PR+"util/mod.rs"], [("sign_v2", PR+"actions/sign_v2.rs"), ("classify_account", PR+"lib.rs")], observe=["account states after the request"])
prop("P05", "Balance tracking covers every account the wallet controls",
 "Every account of a request whose token or stake authority is the wallet is tracked with exactly its current balance; an account owned by someone else is never tracked as the wallet's. A scoped account is tracked under the acting role's own scope configuration.",
 ["inputs"], "every account owner, address, data contents and balance (positions and scope lists of a few fixed shapes in the automated check)",
 "Classification depends on owner, length, authority bytes and position together.",
 [PR+"lib.rs", PR+"util/mod.rs"], [("classify_account", PR+"lib.rs"), ("ProgramScopeCache", PR+"util/mod.rs"), ("read_program_scope_account_balance", PR+"util/mod.rs")], observe=["classification of the account"])
prop("P06", "A wallet is migrated at most once and keeps its identity and roles",
 "Migration succeeds only for a wallet that is not yet of the current generation, when a role of it that may manage authorities authenticates and the wallet address account is empty, owned by the system program and derived from the wallet account with the given bump. Afterwards the wallet has the same id, account bump, next role id and roles, byte for byte, the given wallet bump, and a sub-account count of zero. A wallet of the current generation is refused and so never loses its bump or its count of sub-accounts.",
 ["inputs", "histories"], "every wallet header, acting role, permission, signer and derived address",
 "The old and new header fields share bytes, so whether a wallet counts as migrated depends on values tests do not enumerate.",
 [PR+"actions/migrate_to_wallet_address_v1.rs"], [("migrate_to_wallet_address_v1", PR+"actions/migrate_to_wallet_address_v1.rs")], observe=["wallet bytes after the handler"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
