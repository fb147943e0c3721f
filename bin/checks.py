CHECKS = {
    "C01": dict(crate="state", panics="forbidden", note="every account byte string up to 96 bytes (thorough 112): the split is compared with an independent walk of the role chain"),
    "C02": dict(crate="state", panics="allowed", note="every existing content and id, every authority content of each of the eight kinds, permission lists of three with any contents",
                outside=["wallets that already issued 2^32-1 role ids or hold 65535 roles", "more than two existing roles"]),
    "C03": dict(crate="state", panics="allowed", note="one to three roles of several shapes, every id and content, every id to remove", outside=["more than three roles", "bytes after the roles inside the buffer: no caller passes any"]),
    "C04": dict(crate="state", panics="allowed", note="every pair of authority kinds next to each other, every content; each stored id and an absent one; every key of the length its kind uses", outside=["more than three roles", "the off-chain lookup by key with a key of another kind's length (the runtime compares a prefix); on-chain code never looks up by key"]),
    "C05": dict(crate="state", panics="allowed", note="every list of up to three permissions (the searched kind, a foreign kind of the same size, a marker) with any contents, every request",
                outside=["lists longer than three permissions", "ill-formed permission lists: refused at creation (C06)", "requests shorter than 32 bytes to the program and token permissions: no caller makes one"]),
    "C06": dict(crate="state", panics="forbidden", note="every kind and every body of up to 152 bytes; lists of up to four permissions cut or extended at every length, every content",
                outside=["lists of more than 255 permissions", "duplicate V2 grants: decided by C20"]),
    "C07": dict(crate="state", panics="forbidden", note="every allowance and every history of 3 (thorough 6) charges, full 64-bit amounts"),
    "C08": dict(crate="state", panics="forbidden", note="one charge from every state (inductive step) and histories of 3-4 charges; slot and window widths bounded because of 64-bit division",
                outside=["windows of length 0 (a charge traps on the division; nothing is spent)", "slots and windows above the stated widths"]),
    "C09": dict(crate="state", panics="forbidden", note="every allowance, history of 3 (thorough 6) charges, every request of 0..72 bytes"),
    "C10": dict(crate="state", panics="forbidden", note="every state and history of 3 (thorough 5) charges at any 64-bit slots; every request of 0..72 bytes"),
    "C11": dict(crate="state", panics="forbidden", note="every charge on every kind; every balance field position over account data up to 40 bytes",
                outside=["limit = u128::MAX (the saturating sum makes it unlimited)", "recurring windows of length 0 (trap)", "slots and windows above the stated widths"]),
    "C12": dict(crate="state", panics="forbidden", note="every stored identifier and every request up to 40 bytes; all 2^256 program ids for the curated set",
                outside=["requests shorter than 32 bytes to the program and token permissions: no caller makes one"]),
    "C13": dict(crate="state", panics="forbidden", note="every stored key, up to three accounts with any keys and flags, every account position, requests of 0..4 bytes", outside=["more than three accounts"]),
    "C14": dict(crate="state", panics="allowed", note="all four kinds of session role: every stored record, slot, duration, key and signer flag, up to three accounts", outside=["more than three accounts"]),
    "C15": dict(crate="state", panics="allowed", note="root and session roles: every stored record, authorization, slot, key and flag, up to three accounts and 16 signed bytes; every digest and every recovered key",
                outside=["collisions of the hash functions and the mathematics of key recovery (runtime)", "a counter that wrapped after 2^32 uses", "more than three accounts (other than 65)"]),
    "C16": dict(crate="state", panics="allowed", note="root and session roles: every stored record, request, slot, key, flag and digest; transactions of two or three instructions at every current position; precompile data of every length up to 192 bytes",
                outside=["the elliptic-curve check itself (the runtime's precompile)", "collisions of the hash function", "a counter that wrapped after 2^32 uses", "more than three accounts or instructions"]),
    "C17": dict(crate="state", panics="allowed", note="raw client data: 27 templates (member order, white space, nesting, escapes, wrong lengths, wrong types) with the challenge text, the type text or the digest, key, counter and authenticator data fully symbolic; rebuilt client data: ten field orders; the precompile's record is compared byte for byte",
                outside=["client data that is not JSON, or names a member twice", "arbitrary JSON structure (the templates fix it; a fully symbolic 12-byte object already exhausts the symbolic executor)", "rpId hash and authenticator flags: the program does not look at them", "origins other than the two-letter one; huffman tables beyond three nodes", "String::push and str::from_utf8 are replaced by their single-byte cases"]),
    "C18": dict(crate="state", panics="forbidden", note="root and session roles: every configured program and prefix (lengths 0, 1, 4, 8, 40), transactions of two or three instructions with up to three accounts, every key and data byte, every named instruction",
                outside=["a damaged instructions account (the runtime writes it)", "whether the authorising instruction succeeded (a failed one aborts the transaction)"]),
    "C19": dict(crate="state", panics="forbidden", note="every tail byte string up to 48 (scan: thorough 80) bytes; every save/restore on accounts up to 64 (thorough 128) bytes"),
    "C20": dict(crate="state", panics="allowed", note="every stored grant, every request up to 8 bytes, every 72-byte state, every list of two or three V2 grants of any kinds and targets"),
    "C21": dict(crate="state", panics="forbidden", note="every pair of identifiers of every pair of object kinds; seeds are compared as the concatenated bytes the runtime hashes", outside=["collisions of the runtime's SHA-256 itself"]),
    "C22": dict(crate="state", panics="forbidden", note="bundles of up to 21 bytes cut at every length, account index lists of up to three over three accounts, every data byte, key and flag; account counts 0, 1, 2, 3, 255",
                outside=["account lists longer than three entries", "bundles of more than three instructions"]),
    "C23": dict(crate="state", panics="forbidden", note="every flag and every equality pattern of three accounts, wallet address and two restricted keys; every executed instruction recorded at the runtime boundary",
                outside=["whether the runtime honours the flags it is given", "more than three accounts"]),
    "C24": dict(crate="state", panics="forbidden", note="encoder (both forms): up to two accounts up front and three instructions with up to three accounts, every equality pattern of keys among six, every flag; wire format: bundles of up to three instructions with up to three accounts and 24 data bytes, every data byte and key",
                outside=["more than 255 instructions or accounts, or 65535 data bytes: the format has no room for them", "the standard hash map (replaced by a list with the same contract) and key contents beyond equality", "Vec::push is replaced by its no-reallocation case"]),
    "C25": dict(crate="state", panics="allowed", note="every code, every role record, action header and wallet header"),
    "C26": dict(crate="state", panics="allowed", note="every account header and flag, every key and owner, every byte string up to 40 bytes, every seed set of the stated shape", outside=["check_on_curve (no caller; the curve syscall is not modelled)", "byte comparisons whose two sides differ in length: no caller makes one"]),
    "C31": dict(crate="prog", panics="allowed", note="through the program's dispatcher: wallets of two Ed25519 roles (and a Secp256k1 root), every permission kind of the acting role, every key, flag, owner, balance and new content; acting as and on the root, the other role and an absent role",
                outside=["wallets of other shapes; roles of other kinds (their authentication is C15, C16, C18; their storage C02)", "wallets that already issued 2^32-1 role ids", "the same account passed twice"]),
    "C32": dict(crate="prog", panics="allowed", note="through the program's dispatcher: wallets of two Ed25519 roles, every permission kind, key, flag, owner and balance; acting as the root, as the other role and as an absent role; with and without a claimer",
                outside=["token balances of the wallet address (accounts the classifier recognised as the wallet's)", "wallets of other shapes and roles of other kinds (their authentication is C15, C16, C18)", "the same account passed twice"]),
    "C33": dict(crate="prog", panics="allowed", note="through the program's dispatcher: wallets of two Ed25519 roles (and a Secp256k1 root), every header content, bump, permission kind, key, flag, owner and balance; acting as the root, the other role and an absent role",
                outside=["wallets of other shapes and roles of other kinds", "wallet addresses holding more than 8 bytes", "the same account passed twice"]),
    "C34": dict(crate="prog", panics="allowed", note="through the program's dispatcher: create, switch, sign and withdraw (lamports and tokens) by the root, another role and an absent role; every pair of permission kinds and targets, state account, wallet header, id, key, owner, balance, derivation result and signer",
                outside=["roles of other kinds (their authentication is C15, C16, C18)", "bundles of several inner instructions (C22, C23)", "what the token program does with the transfer", "the same account passed twice"]),
    "C35": dict(crate="prog", panics="allowed", note="through the program's dispatcher: the signer of a role of each of the eight kinds replaced by another role, by the root, by itself and through an approving instruction; every new signer of 32, 33, 34 and 64 bytes, stored content, permission kind, grant, key, flag and owner",
                outside=["wallets of other shapes", "whether a new signer is a point on its curve (nothing on chain asks)", "collisions of the hash function"]),
#WIP    "C36": dict(crate="prog", panics="allowed", note="through the program's entry point: three accounts as the loader serializes them (or two and a repetition); every owner, key, balance, first byte and content of the account under test, and every scope of a role",
#WIP                outside=["more than three accounts; accounts of other sizes"]),
    "C37": dict(crate="prog", panics="allowed", note="through the program's dispatcher: a list replaced by a longer, shorter and equally long one, extended, cut by kind and by position, by another role and by the role itself; every content, key, owner, balance and flag; with and without a rent claimer behind the roles",
                outside=["the newer form of 'replace all' (its list starts at an odd address, which the compiler's own alignment check refuses)", "wallets of other shapes", "byte vectors grow in one fixed buffer (Vec::extend_from_slice is replaced)"]),
}
NOT_APPLICABLE = {}
