"""Bounds of every harness, in words, and what all of them assume."""

# instructions per path after which a path counts as not terminating
MAX_STEPS = {}

BOUNDS = {
    "h_sig_hashed": "2 fixed secp256k1 keys as signer and verifier; digests of 0, 31, 32, 33 arbitrary bytes below the order of the group",
    "h_peer_id_any": "inlined keys of every kind and an unknown one: secp256k1 of 33 arbitrary bytes, four ed25519 keys, any kind of 0-4 arbitrary bytes",
    "h_rsa_any": "28 sizes of RSA keys from 0 to 526 arbitrary bytes, around every change of length of a DER length",
    "h_secret_erased": "ECPrivateKey container with an arbitrary 32-byte key; two RSA containers",
    "h_secret_debug": "ed25519 and secp256k1 secrets of 32 arbitrary bytes; the text of one key pair each",
    "h_serde_total": "bincode: keys and signatures of 0-2 and 31-33 arbitrary bytes under true and false length prefixes, wrapped keys of 0-11 arbitrary bytes, peer ids and certificate lists of 0-2; MessagePack and JSON wrapped keys of 0-2",
    "h_serde_peer": "3 keys, one per algorithm; bincode, JSON and MessagePack",
    "h_serde_certs": "lists of 0-2 certificates of 0-2 trusts, signatures of 0-1 arbitrary bytes, 3 expiries; bincode, JSON and MessagePack",
    "h_serde_key": "3 keys, one per algorithm; signatures of every type, of 0-256 (bincode) or 0-2 (JSON, MessagePack) arbitrary bytes",
    "h_serde_trust": "3 subjects; signatures as h_serde_key; arbitrary 64-bit times (nanoseconds too in bincode), 4 values in JSON",
    "h_serde_relation": "trusts and revocations by and for 3 keys; signatures and times as h_serde_trust",
    "h_serde_hashable": "3 keys, one per algorithm; bincode, JSON and MessagePack",
    "h_hashable": "6 fixed keys (2 of each algorithm), every pair",
    "h_hashable_any": "two ed25519 keys of 32 arbitrary bytes each",
    "s_store": "one relation; subject and issuer of different algorithms; 4 signature shapes (64, 256, 70, 0 arbitrary bytes), trust or revocation, arbitrary 64-bit times; all 9 pairs queried",
    "s_store_all": "as s_store, every subject and issuer",
    "s_latest": "2 relations of one pair (trust or revocation each) with arbitrary 64-bit times, one of a neighbour",
    "s_latest3": "3 relations of one pair with arbitrary 9-bit times",
    "s_latest4": "4 relations of one pair with arbitrary 7-bit times",
    "s_gc": "2 relations with arbitrary 64-bit expiry, query time below 2^63",
    "s_gc3": "3 relations, 10-bit times",
    "s_gc4": "4 relations, 8-bit times",
    "s_issued_root": "a root certificate as issue_root makes it, arbitrary 64-bit expiry and 63-bit time (object form) or 3x16 expiries and 16 times (text form)",
    "s_roots": "up to 3 settings over 2 of 3 keys (one per algorithm), arbitrary 32-bit factors",
    "s_set_root": "caller equal to the creator or differing in one character, length or empty, or the host, the target, a root, the service or particle id; with and without a root before; two hosts; targets of every algorithm and a broken one; arbitrary 32-bit max_chain_len",
    "s_time_certs": "the 4 certificate queries; tetraplet at any of 4 arguments or all, absent, or with peer, service or function name exact, changed in one character, shortened, extended, empty, or the peer of the caller, creator or particle; list possibly too short, or a genuine tetraplet only second",
    "s_time_weight": "get_weight, get_weight_from, verify_trust; tetraplets as s_time_certs",
    "s_time_change": "add_trust, revoke, insert_cert, insert_cert_raw; tetraplets as s_time_certs",
    "s_future": "one trust or revocation, 9-bit issue and expiry times, 8-bit offset of the current time",
    "s_dto": "ed25519 and secp256k1 keys, signatures of 0, 1, 64, 70 arbitrary bytes of every type, arbitrary 64-bit times, certificates of 0-3 trusts",
    "s_dto_any": "peer id of 0-2, signature text of 0-3 arbitrary ASCII characters, a peer id without its key, signature type changed as in s_set_root",
    "s_pipeline": "root and peer of ed25519 or secp256k1, 10-bit expiry, issue and revocation times, current time 100",
    "s_history": "every history of 2 calls (add_trust, revoke, set_root) over 2 peers, 2 issue times, 2 expiries, 3 chain lengths, after one root was set up",
    "s_history3": "as s_history, 3 calls",
    "s_history_wide": "as s_history, 2 calls over 3 peers",
    "h_sig_genuine": "6 fixed key pairs (2 of each algorithm), every signer/verifier pair; signed and checked message of 0, 1 or 3 arbitrary bytes each",
    "h_sig_genuine_long": "5 fixed key pairs; messages of 32, 33 or 65 arbitrary bytes",
    "h_sig_tampered": "3-byte arbitrary message; genuine signature with one byte at any position (every 8th for RSA) or the last two bytes xored with arbitrary values, cut by 1-4 bytes or to nothing, or extended by 1-2 arbitrary bytes",
    "h_sig_forged": "2-byte arbitrary messages; signatures of 0-65 arbitrary bytes (0-8 for DER), of other messages, of other keys, DER of two arbitrary 16-bit numbers, any type tag",
    "h_pk_codec": "arbitrary byte strings of length 1, 2, 9, 32-35",
    "h_pk_codec_real": "6 fixed keys of every algorithm, all pairs",
    "h_sig_codec": "signatures of 0, 1, 2, 64, 72 arbitrary bytes, every type",
    "h_sig_decode_any": "arbitrary byte strings of 0-4 bytes",
    "h_key_format": "every byte",
    "h_keypair_codec": "ed25519 and secp256k1 secrets of 0, 31, 32, 33 arbitrary bytes",
    "h_keypair_mismatch": "every combination of halves of two ed25519 pairs, one arbitrary byte changed",
    "h_secp_der": "ECPrivateKey container with an arbitrary 32-byte key",
    "h_decode_total": "arbitrary bytes: public key 0-35, base58 text 0-5, key pair 0-65, DER 0-9, PKCS#8 0-7, RSA key for a peer id 0-9",
    "h_peer_id": "6 fixed keys, all pairs",
    "h_libp2p_keypair": "one key pair per algorithm, 2-byte arbitrary message",
    "h_trust_verify": "4 fixed keys of every algorithm as signer/claimed issuer/subject, arbitrary 64-bit seconds and 29-bit nanoseconds for all signed, stated and current times",
    "h_trust_forged": "arbitrary signature bytes (64, 8 or 256) for each algorithm, arbitrary times",
    "h_revocation_verify": "4 fixed keys in every role, arbitrary times",
    "h_domain_separation": "4 fixed keys including two RSA sizes, arbitrary times, both directions",
    "h_trust_codec": "4 keys, 5 signature shapes with arbitrary bytes (0-200), arbitrary 64-bit times",
    "h_trust_codec_injective": "two trusts, each 2 keys x 2 signature lengths, arbitrary bytes and times",
    "h_trust_decode_any": "arbitrary byte strings of 0-23 bytes, and arbitrary tails of up to 24 bytes behind a well-formed key",
    "h_trust_text": "3 keys, 5 signature shapes; times from {0, 2^64-1, 2^64-2, 2^63, 3 values near 10^10, 0..127}",
    "h_trust_codec_rsa": "one RSA subject, one RSA signature",
    "h_cert_verify": "chains of 0-2 trusts over 3 ed25519 keys, any signer and subject of each, one trust possibly altered, any set of roots, arbitrary times",
    "h_cert_verify3": "chains of 3 trusts over 3 keys, any signer and subject of each, any set of roots, arbitrary times",
    "h_cert_verify_long": "chains of 4-6 different keys, at most one trust wrongly signed or altered, arbitrary times",
    "h_cert_verify_types": "chains of 2, every pair of algorithms, arbitrary times",
    "h_cert_issue": "extending chains of 0-2 trusts over 3 keys (one possibly wrongly signed), arbitrary times",
    "h_cert_issue_trust": "as h_cert_issue with a trust signed by anybody",
    "h_cert_issue3": "as h_cert_issue, chains of 3",
    "h_cert_issue_trust3": "as h_cert_issue_trust, chains of 3",
    "h_cert_root": "4 keys of every algorithm in every role, arbitrary times",
    "h_cert_codec": "0-3 trusts with arbitrary signature bytes and times",
    "h_cert_codec_many": "16, 127, 128, 255 trusts",
    "h_cert_codec_rsa": "one RSA root certificate",
    "h_cert_text": "0-2 trusts as in h_trust_text",
    "h_cert_decode_any": "arbitrary byte strings of 0-19 bytes, arbitrary tails up to 20 bytes behind a well-formed trust, two arbitrary 19-byte trusts",
    "h_cert_parse_any": "texts of 0-4 characters from {1, a, LF, CR, space}; six-line texts with one line of 0-2 arbitrary bytes",
    "h_graph_sound": "every content over 3 keys (each ordered pair: nothing, trust or revocation), any roots, arbitrary query time",
    "h_graph_sound4": "every content over 4 keys with at most one revocation, any roots",
    "h_graph_expired": "every content over 3 keys of trusts, live or expired",
    "h_graph_weight": "every content of trusts over 3 keys, any roots, each with an arbitrary 32-bit max_chain_len",
    "h_graph_weight_rev": "as h_graph_weight with at most one revocation and one expired trust",
    "h_graph_weight_line": "one chain of 1-20 trusts, arbitrary 32-bit max_chain_len",
    "h_graph_from": "every content over 3 keys with at most one revocation, every issuer",
    "h_graph_weight_from": "every content of trusts over 3 keys, arbitrary max_chain_len, every issuer",
    "h_graph_add_trust": "every content of trusts over 3 keys, max_chain_len from {0, 1, 2, >16}; offered trust genuine, signed by anybody or altered, 17-bit expiry, arbitrary issue time",
    "h_graph_add_trust2": "every content over 2 keys with up to 2 revocations and 2 expired trusts, arbitrary max_chain_len; offers as h_graph_add_trust",
    "h_graph_add_cert": "certificates of 1-2 trusts over every content of 2 keys with at most one revocation; one trust possibly spoilt",
    "h_graph_add_cert_long": "certificates of 3 trusts over 2 keys",
    "h_graph_add_cert3": "certificates of 2 trusts over 3 keys",
    "h_graph_add_empty": "the empty certificate",
    "h_graph_revoke": "3 keys in every role, arbitrary 64-bit times",
    "h_graph_sound_spine": "a chain of 5 keys with any two ordered pairs set to nothing, trust, revocation or expired trust, any second root",
    "h_graph_sound_spine6": "the same with 6 keys",
}
for a, b in (("complete", "sound"), ("revoked", "sound")):
    for s in ("", "4", "_spine", "_spine6"):
        BOUNDS["h_graph_%s%s" % (a, s)] = BOUNDS["h_graph_%s%s" % (b, s)]

ASSUMPTIONS = [
    "ed25519-dalek, libsecp256k1 and ring are replaced in the encoding by ideal signature schemes: a signature "
    "verifies exactly if that key signed that message in this run; key derivation is injective; whether given bytes "
    "are a curve point is a free choice. Their wrappers in fluence-keypair, DER parsing and all length checks are the real code.",
    "SHA-2 is an injective function, base58 a bijection on byte strings (texts of arbitrary characters use the real alphabet).",
    "Rust's HashMap runs with fixed keys; the Debug text of Duration is empty; allocation never fails.",
    "The service's harnesses (s_*) run /repo/service's sources over a stand-in for marine-rs-sdk (call parameters as the "
    "harness sets them) and the SQL connector's own code over the real SQLite 3 (in memory, symbolically executed as well); "
    "its file layer, WASM boundary and host are not part of the encoding.",
    "Times are any 64-bit seconds with nanoseconds below 2^29.",
    "LLVM IR of the pinned compiler in release mode, without vectorisation, stands for the code; counterexamples and sampled "
    "paths are run again in a debug build of the unmodified crates with the real cryptography.",
    "Bounds per harness are listed under coverage.harnesses; nothing is claimed outside them.",
]
