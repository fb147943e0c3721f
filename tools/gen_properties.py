import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
SW="state/src/swig.rs"; TL="state/src/tail/mod.rs"
p("C01","Wallet account bytes always split into header, roles and tail, or are rejected",
 "For every byte string presented as wallet account data, splitting it either fails with an error or yields a header, a role region and a tail that are consecutive, do not overlap and together are exactly the input; it never reads or writes outside the input and never panics. The role region ends exactly where the last of the declared number of chained role records ends, and bytes whose declared chain is well formed are always accepted.",
 ["inputs"],"all account byte strings up to the harness size, every declared role count and every boundary value, for the read-only and the mutable split",
 "unit tests parse a few hand-built well-formed accounts; the claim is about every hostile or truncated byte string",
 [SW],[("roles_end_offset / split_parts / split_parts_mut / SwigWithRoles::from_bytes",SW)],[("Position.boundary","end of the role record, relative to the role region","state/src/role.rs")])
p("C02","Adding a role stores it verbatim under a fresh id and disturbs nothing else",
 "When a role is added, every byte of every existing role is unchanged, the new role is found under an id that no present or previously removed role of the wallet has had, and it carries exactly the supplied authority type, authority data and permission list. The role count and the id counter grow by exactly one, and a refused addition leaves the existing roles, the role count and the id counter unchanged.",
 ["inputs","histories"],"every well-formed prior wallet state within the size bound (one inductive step, so histories of any length), every authority type, arbitrary authority bytes and permission lists within the size bound",
 "tests add a handful of fixed roles; freshness and preservation must hold after every add/remove history and for every authority type and list",
 [SW,"state/src/authority/mod.rs"],[("SwigBuilder::add_role",SW),("Authority::set_into_bytes","state/src/authority/")],[("Swig.role_counter","next role id",SW)])
p("C03","Removing a role removes only that role",
 "Removing a role by id from a well-formed wallet deletes exactly that role: every other role keeps its id, authority bytes and permissions and its relative order, the role count drops by one, the id counter is unchanged and the freed bytes are zeroed. Removing an id that is not present fails and changes nothing.",
 ["inputs","histories"],"every well-formed wallet of up to three roles with arbitrary record sizes within the bound, and every id",
 "tests remove fixed roles from fixed layouts; records of different sizes at every position are not sampled",
 [SW],[("SwigBuilder::remove_role",SW)])
p("C04","A role looked up by id or authority is that role and nothing else",
 "Looking a role up by id returns the record stored under exactly that id with its own authority bytes and its own permission bytes, or reports that there is none; this is the same for the read-only and the mutable view. Writing through the mutable view never changes any byte outside that role's own record, and looking up by authority key returns the id of a role that really has that key, or none.",
 ["inputs"],"every well-formed wallet of up to three roles with arbitrary authority types, keys and permission sizes within the bound, and every id or key looked up",
 "tests look up a few ids in fixed wallets",
 [SW,"state/src/role.rs"],[("SwigWithRoles::get_role / lookup_role_id, Swig::get_mut_role",SW)])
p("C05","A permission check finds a grant exactly when the role holds it",
 "Asking a role for a permission returns a grant if and only if the role's own permission list contains an entry of that kind (for kinds scoped to a target, one whose stored target equals the requested target), and the returned contents are those stored in that entry. An entry of another kind or for another target is never returned, and the mutable lookup returns the same entry as the read-only one.",
 ["inputs"],"every permission list of up to three entries of arbitrary kinds and contents, every requested kind that the spend and management checks use, every requested target",
 "tests look up a few permissions in fixed lists; kind/target combinations and positions are not sampled",
 ["state/src/role.rs","state/src/action/mod.rs"],[("Role::get_action, RoleMut::get_action_mut, RoleMut::get_action, ActionLoader::find_action","state/src/role.rs"),("Actionable::match_data","state/src/action/")])
p("C06","Only well-formed, non-empty permission lists can be attached to a role",
 "A role can be created only if its permission list is non-empty, every entry is of a defined kind with contents of the shape that kind requires, and the entries exactly fill the list; otherwise creation fails with an error. A list that grants the same scoped sub-account permission twice to the same sub-account is refused. Validation never panics or reads outside the supplied bytes.",
 ["inputs"],"every permission-list byte string within the size bound, every kind code and declared length",
 "tests try a few malformed lists; the validator faces attacker-chosen bytes",
 [SW,"state/src/action/mod.rs","state/src/action/sol_recurring_limit.rs","state/src/action/sub_account_v2.rs"],[("calculate_num_actions",SW),("ActionLoader::validate_layout, reject_duplicate_v2_scoped","state/src/action/mod.rs"),("Actionable::valid_layout","state/src/action/*.rs")])
p("C07","A spending allowance can never be overspent",
 "Charging an amount against a SOL, token or stake allowance succeeds if and only if the amount does not exceed what remains, and then the remainder falls by exactly that amount; otherwise it fails and the remainder is unchanged. Consequently no sequence of charges can ever spend more in total than the allowance originally granted.",
 ["inputs","histories"],"all 64-bit remaining amounts and charges, and all sequences by induction on one charge",
 "tests charge a few amounts; off-by-one and wrap-around at 64-bit extremes are not sampled",
 ["state/src/action/sol_limit.rs","state/src/action/token_limit.rs","state/src/action/stake_limit.rs"],[("SolLimit::run, TokenLimit::run, StakeLimit::run","state/src/action/")])
p("C08","A per-window allowance never lets more than its amount through per window",
 "Charging a recurring SOL, token or stake allowance never lets the total charged within one window exceed the recurring amount, for any increasing sequence of slots and any amounts; the allowance is refilled only once more than one full window has elapsed since the start of the current window, and never above its recurring amount. A refused charge changes nothing, a granted one reduces the remainder by exactly the amount, and the recurring amount and window length never change.",
 ["inputs","histories"],"all amounts, allowances, windows and slots at full 64-bit width for one charge, plus all charge sequences by induction on the stored state",
 "the tests advance a clock through a few fixed slots; the quantifier is over every sequence of slots and amounts",
 ["state/src/action/sol_recurring_limit.rs","state/src/action/token_recurring_limit.rs","state/src/action/stake_recurring_limit.rs"],[("SolRecurringLimit::run, TokenRecurringLimit::run, StakeRecurringLimit::run","state/src/action/")],[("last_reset, current","start of the current window and what is left in it","state/src/action/")])
p("C09","Destination allowances bind the destination and are never overspent",
 "A destination-bound SOL or token allowance applies only to transfers whose destination (and mint, for tokens) is byte-for-byte the one it was granted for. Charging it succeeds if and only if the amount does not exceed what remains and then lowers the remainder by exactly that amount; otherwise nothing changes.",
 ["inputs","histories"],"all 64-bit amounts and remainders, all stored and requested 32-byte mints and destinations",
 "tests use one destination; near-miss keys and extremes are not sampled",
 ["state/src/action/sol_destination_limit.rs","state/src/action/token_destination_limit.rs"],[("match_data, run","state/src/action/")])
p("C10","Recurring destination allowances are never overspent between refills",
 "A recurring destination-bound SOL or token allowance applies only to its exact destination (and mint), is refilled only when more than one full window has elapsed since the last refill and only to its recurring amount, and never allows more than the recurring amount to be charged between two refills. A refused charge changes nothing.",
 ["inputs","histories"],"all 64-bit amounts, remainders, windows and slots; all sequences by induction on one charge; all keys",
 "tests use a few slots and one destination",
 ["state/src/action/sol_recurring_destination_limit.rs","state/src/action/token_recurring_destination_limit.rs"],[("match_data, run","state/src/action/")])
p("C11","Program-scope allowances count every charge and never exceed their limit",
 "A program-scope allowance of the basic kind admits any amount, of the limit kind admits a charge only if the running total stays within the limit, and of the recurring kind admits a charge only if the total within the current window stays within the limit; admitted charges are added exactly to the running total and refused ones are never added. The balance it meters is read from exactly the configured bytes of the account, little-endian, and a field that does not lie inside the account data is an error rather than a wrong value.",
 ["inputs","histories"],"all 64/128-bit amounts, totals, limits, windows and slots, all account data within the size bound and all field ranges",
 "tests exercise a few amounts and one field position",
 ["state/src/action/program_scope.rs"],[("ProgramScope::run, read_account_balance, valid_layout","state/src/action/program_scope.rs")])
p("C12","Program permissions match only the named program",
 "A permission scoped to one program, one token mint, one sub-account, one stake or program-scope target or one replaceable role matches a request only if the request names byte-for-byte the same identifier. The curated-programs permission matches exactly the fixed published set of programs and nothing else.",
 ["inputs"],"all stored and requested identifiers, including request data longer than an identifier",
 "tests compare a few equal and clearly different keys; a comparison that ignores some byte passes them",
 ["state/src/action/program.rs","state/src/action/program_curated.rs","state/src/action/program_scope.rs","state/src/action/sub_account.rs","state/src/action/replace_authority.rs"],[("Actionable::match_data, ProgramCurated::is_curated_program","state/src/action/")])
p("C13","An Ed25519 role authenticates only with its own signer",
 "An Ed25519 role (outside a session) authenticates if and only if the account the request points at exists, carries the role's stored public key and has signed the transaction. Any other account, a missing signature, an out-of-range account position or an empty request is refused without panicking, and authentication changes no stored byte.",
 ["inputs"],"every stored key, every account list of up to three accounts with arbitrary keys and signer flags, every request payload",
 "tests try one right and one wrong signer",
 ["state/src/authority/ed25519.rs"],[("ED25519Authority::authenticate, ed25519_authenticate","state/src/authority/ed25519.rs")])
p("C14","Session keys work only while their bounded session is alive",
 "Starting a session with a duration above the role's stored maximum is refused, and otherwise stores exactly the given session key and an expiry equal to the current slot plus the duration. A session role accepts its session key only if the current slot is not past the stored expiry and that exact key signed the transaction; the role's root key, its maximum duration and all other stored fields are never changed by starting or using a session.",
 ["inputs"],"all slots, durations, maxima, keys and signer flags, for Ed25519, Secp256k1, Secp256r1 and program-execution session roles",
 "tests start a few sessions and step past one expiry; boundary slots, all role kinds and all field preservation are not covered",
 ["state/src/authority/ed25519.rs","state/src/authority/secp256k1.rs","state/src/authority/secp256r1.rs","state/src/authority/programexec/session.rs"],[("start_session, authenticate_session","state/src/authority/")],[("current_session_expiration","last slot at which the session key is valid","state/src/authority/")])
p("C15","A Secp256k1 authorization is single-use, fresh and bound to what was signed",
 "A Secp256k1 role authenticates only if the supplied signature recovers to its stored key over a digest of the exact instruction payload, the exact transaction accounts (keys and flags), the signed slot and a counter equal to the stored counter plus one; the signed slot must not be in the future nor older than the validity window. Each success advances the stored counter by exactly one (so the same authorization can never be accepted twice), and a failure leaves the stored state unchanged.",
 ["inputs","histories"],"every stored key and counter, slot, payload and account list within the bound, with hashing and key recovery replaced by an arbitrary collision-free hash and an arbitrary recovery function",
 "tests replay one signature; which bytes are bound into the digest, and counter and age boundaries, need every value",
 ["state/src/authority/secp256k1.rs"],[("secp256k1_authenticate, secp_authority_authenticate, secp_session_authority_authenticate","state/src/authority/secp256k1.rs")],[("signature_odometer","last used counter","state/src/authority/secp256k1.rs")])
p("C16","A Secp256r1 authorization is verified by the precompile for this very request",
 "A Secp256r1 role authenticates only if the instruction immediately before it in the transaction is a single-signature secp256r1 precompile verification, self-contained in its own data, whose public key is the role's stored key and whose message is the digest of the exact payload, accounts, slot and next counter; the slot must be within the validity window and the counter must be the stored counter plus one. Each success advances the stored counter by exactly one and a failure leaves stored state unchanged.",
 ["inputs","histories"],"every precompile instruction content within the size bound, every counter, slot and key, collision-free hash model",
 "tests try a few well-formed precompile instructions; offsets and indices are attacker-chosen 16-bit fields",
 ["state/src/authority/secp256r1.rs"],[("secp256r1_authenticate, verify_secp256r1_instruction_data","state/src/authority/secp256r1.rs")])
p("C17","A WebAuthn message is accepted only if it carries this request's challenge",
 "When a Secp256r1 role is used through WebAuthn, the message accepted is one whose client data is of the authentication type and whose challenge field encodes the digest of the exact request; client data whose own top-level challenge is absent, different or merely nested inside another value is refused. Parsing attacker-chosen client data never reads outside it.",
 ["inputs"],"all client-data fields and parse inputs within the size bound",
 "tests parse a few browser-produced messages; the parser faces attacker-chosen bytes",
 ["state/src/authority/secp256r1.rs"],[("webauthn_message / extract_top_level_string_field / reconstruct client data","state/src/authority/secp256r1.rs")])
p("C18","A program-execution role authenticates only via its configured instruction",
 "A program-execution role authenticates only if an earlier instruction of the same transaction (the immediately preceding one unless the request names another) calls the configured program, its data begins with the configured prefix, and its first two accounts are this wallet's configuration account and wallet address. Any such instruction is accepted regardless of what follows the prefix, and malformed or missing input is refused without reading outside the instruction list.",
 ["inputs"],"all configured programs and prefixes, all preceding instructions with up to a few accounts and data bytes within the bound",
 "tests try one matching and a few mismatching instructions",
 ["state/src/authority/programexec/mod.rs"],[("program_exec_authenticate, ProgramExecAuthority::set_into_bytes","state/src/authority/programexec/mod.rs")])
p("C19","The rent-claimer tail survives every role edit and is read back exactly",
 "The bytes stored after the roles (which hold the immutable rent claimer) are saved and restored unchanged around any growth or shrink of the role region, at the new end of the roles. A rent claimer read from a tail is exactly the last-written 32-byte key; a malformed or truncated tail is reported as an error or as no claimer, and never yields a different key, panics or reads outside the tail.",
 ["inputs"],"all tails within the size bound, all role-region end offsets before and after",
 "tests use one rent claimer and one resize",
 ["state/src/tail/mod.rs","state/src/tail/rent_claimer.rs"],[("SavedTail::take / restore / restore_at, read_first_of","state/src/tail/mod.rs"),("rent_claimer::entry/read/read_strict","state/src/tail/rent_claimer.rs")])
p("C20","V2 sub-account grants apply only to the sub-account they name",
 "A role may act on a V2 sub-account only through a wallet-wide grant or a grant whose sub-account id equals that sub-account's id; a grant for another id, or another operation's grant, never suffices. The stored V2 sub-account state is accepted only with the expected type marker, size and owning wallet, and a role never holds two identical scoped grants.",
 ["inputs"],"all 32-bit ids, all permission lists of up to three entries, all state bytes",
 "tests use one sub-account; id confusion needs several and every value",
 ["state/src/action/sub_account_v2.rs","state/src/sub_account_v2.rs","state/src/action/mod.rs"],[("SubAccountV2* match_data, reject_duplicate_v2_scoped","state/src/action/"),("SubAccountV2 load/validity","state/src/sub_account_v2.rs")])
p("C21","Different wallet objects never share a derived address",
 "The seed lists used for the wallet account, wallet address, sub-accounts and V2 sub-account state and asset accounts are never equal, after concatenation, for two different kinds of object or for two different identifiers of one kind. The seeds used to sign for an address are exactly those it was derived from, plus the bump.",
 ["inputs"],"all 32-byte ids, keys, role ids, sub-account ids and bumps",
 "tests check literal seeds for one id",
 [SW],[("*_seeds, *_seeds_with_bump, *_signer",SW)])
p("C22","Decoding a compact instruction bundle is total, bounded and exact",
 "For every byte string given as an instruction bundle and every account list, decoding yields only errors or instructions whose program, accounts and data are exactly those the bytes select from the supplied account list; an index outside the list or a length outside the bytes is an error. It never reads outside the bytes or the account list, and yields exactly the declared number of instructions.",
 ["inputs"],"all bundles within the size bound over account lists of up to three accounts",
 "tests decode two well-formed bundles; the bytes are attacker-chosen",
 ["instructions/src/lib.rs"],[("InstructionIterator::new / next / parse_next_instruction","instructions/src/lib.rs")])
p("C23","Signer privilege is granted only to the wallet's signer and real signers",
 "In every decoded instruction an account is marked as signer only if it is the wallet address being signed for or it signed the outer transaction, and a restricted account is never marked as signer; an account is marked writable only if the outer transaction made it writable. Executing an instruction asks the runtime for exactly that call with exactly those privileges, and the older direct transfer of lamports moves exactly the stated amount or is refused.",
 ["inputs"],"all bundles within the bound, all key, signer and writable flag combinations and all restricted sets over up to three accounts",
 "tests check one combination of flags",
 ["instructions/src/lib.rs"],[("RestrictedKeys, parse_next_instruction, InstructionHolder::execute","instructions/src/lib.rs")])
p("C24","Compacting instructions and decoding them gives the same instructions back",
 "Encoding a list of instructions into the compact form and decoding it against the account list the encoder returned yields the same programs, account keys in the same order and data for every instruction. Decoding never sees fewer or extra accounts or bytes, and accounts common to several instructions resolve to the same key.",
 ["inputs"],"all lists of up to two instructions with up to two accounts drawn from a small key set and data up to a few bytes",
 "tests round-trip a fixed instruction",
 ["instructions/src/compact_instructions.rs","instructions/src/lib.rs"],[("compact_instructions, into_bytes","instructions/src/compact_instructions.rs")])
p("C25","Stored type codes decode to the same meaning or are rejected",
 "Every permission kind, role authority kind and account discriminator is stored as a numeric code that decodes back to the same kind, and a code that is not defined is rejected instead of being treated as some other kind. Role records encode and decode id, kind, lengths and boundary without loss.",
 ["inputs"],"all 16-bit codes and all field values",
 "tests decode a few codes",
 ["state/src/action/mod.rs","state/src/authority/mod.rs","state/src/role.rs","state/src/lib.rs"],[("Permission::try_from, AuthorityType::try_from, Position, Action","state/src/")])
p("C26","Address, ownership and emptiness guards accept exactly what they claim",
 "The shared guards accept an input if and only if it satisfies their stated condition: two byte strings are equal, an account is owned by the expected program, its data is empty, it signed, or an address is the one derived from the given seeds by this program. A guard that fails returns the caller's error and no guard ever accepts on a partial comparison.",
 ["inputs"],"all byte strings up to 32 bytes, all owners, flags and data lengths, an arbitrary address-derivation function",
 "tests check a few values; guards are the last line before funds move",
 ["assertions/src/lib.rs"],[("sol_assert_bytes_eq, check_* functions","assertions/src/lib.rs")])
AC="program/src/actions/"
p("C30","The wallet never signs for a role without its authentication and permission",
 "The wallet executes inner instructions for a role only if that role exists, authenticated this exact request, and holds a permission that covers every inner program called; otherwise nothing is executed. After execution the instruction succeeds only if every decrease of the wallet's SOL is covered by one of the role's spending permissions, whose remaining allowance falls by exactly that decrease.",
 ["inputs","histories"],"all single-instruction requests on wallets of the harness shapes, with an arbitrary effect of the inner instruction on the wallet's lamports",
 "the end-to-end tests run a few fixed scenarios (and are outside the reliable test set)",
 [AC+"sign_v2.rs"],[("sign_v2",AC+"sign_v2.rs")])
p("C31","Roles can be added, removed or changed only by an authorized role",
 "Adding, removing or updating a role, or removing any role but one's own, succeeds only if the acting role authenticated the exact request and holds the full or the authority-management permission; the root role can never be removed. If the request is refused, no role byte changes.",
 ["inputs"],"all acting and target ids, all permission kinds of the acting role, signed or not, on wallets of the harness shapes",
 "end-to-end tests try a few permission combinations",
 [AC+"add_authority_v1.rs",AC+"remove_authority_v1.rs",AC+"update_authority_v1.rs"],[("add_authority_v1, remove_authority_v1, update_authority_v1",AC)])
p("C32","Closing a wallet and naming a rent claimer require the right permission",
 "A wallet can be closed only by an authenticated role with full, authority-management or close permission, and if a rent claimer is set its funds go only to that claimer. A rent claimer can be set only once, only by an authenticated role with full or close permission, and never to the zero address, the wallet or its wallet address.",
 ["inputs"],"all destinations, claimers, permission kinds and balances on wallets of the harness shapes",
 "end-to-end tests try a few destinations",
 [AC+"close_swig_v1.rs",AC+"set_rent_claimer_v1.rs"],[("close_swig_v1, set_rent_claimer_v1",AC)])
p("C33","Migration happens once and never reuses sub-account ids",
 "Migrating a wallet to the wallet-address format preserves its identity, every role and the role counter, and sets the derived wallet bump. A wallet that is already in the new format is refused, so its sub-account id counter is never reset.",
 ["inputs","histories"],"all header contents (including every sub-account counter) of wallets of the harness shapes",
 "tests migrate one freshly created old-format wallet",
 [AC+"migrate_to_wallet_address_v1.rs"],[("migrate_to_wallet_address_v1",AC+"migrate_to_wallet_address_v1.rs")])
p("C34","A V2 sub-account acts only when enabled and for a role granted on it",
 "Signing as, toggling or withdrawing from a V2 sub-account succeeds only if its stored state belongs to this wallet and names this sub-account, the acting role authenticated and holds the matching wallet-wide or same-id grant, and, for signing, the sub-account is enabled. Creating one requires the creation grant, uses the wallet's next unused id and advances the counter by exactly one.",
 ["inputs","histories"],"all ids, enabled flags, wallet ids and permission kinds on wallets of the harness shapes",
 "end-to-end tests use one sub-account and a few roles",
 [AC+"sub_account_sign_v2.rs",AC+"toggle_sub_account_v2.rs",AC+"withdraw_from_sub_account_v2.rs",AC+"create_sub_account_v2.rs"],[("sub_account_sign_v2, toggle_sub_account_v2, withdraw_from_sub_account_v2, create_sub_account_v2",AC)])
p("C35","Replacing a role's signer keeps its id, kind and permissions",
 "Replacing a role's signer succeeds only for an authenticated role with full, authority-management or matching replace permission, and changes only that role's signer data: its id, kind and permission bytes and every other role are unchanged, its replay counter restarts and any live session of the old signer is ended. A replacement by the same signer or of a different size is refused.",
 ["inputs"],"all acting roles, target ids and replacement bytes on wallets of the harness shapes",
 "end-to-end tests replace a few signers",
 [AC+"replace_authority_v1.rs"],[("replace_authority_v1",AC+"replace_authority_v1.rs")])
p("C36","Accounts are classified by ownership and content, never by position alone",
 "Before any instruction runs, each supplied account is classified from its owner and contents: a token account counts as the wallet's only if its recorded owner is this wallet or its wallet address, a stake account only if its withdraw authority is, and only the first account can be this wallet. A second wallet configuration account alongside a non-wallet first account is refused.",
 ["inputs"],"all owners, data contents within the size bound and positions",
 "tests classify a few fixed accounts",
 ["program/src/lib.rs"],[("classify_account","program/src/lib.rs")])
p("C37","Updating a role's permissions leaves every other role and the tail intact",
 "Replacing, appending or removing a role's permissions leaves all other roles and the bytes after the roles unchanged, and leaves the updated role with exactly the requested well-formed list. The stored role chain stays walkable and an update that would leave no permission is refused.",
 ["inputs"],"all update operations and lists within the bound on wallets of two roles and a tail",
 "end-to-end tests update a few fixed lists",
 [AC+"update_authority_v1.rs"],[("perform_replace_all / perform_add_actions / perform_remove_*",AC+"update_authority_v1.rs")])
open(__import__("os").path.join(__import__("os").path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
from jsonschema import validate
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: validate(x,S); assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
