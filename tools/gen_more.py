prop("C17", "Of several relations between two keys the latest one counts",
     "After any sequence of trusts and revocations stored for the same issuer and subject, the storage holds exactly the one with the greatest issue (or revocation) time, the first stored among equals, whatever the order in which they arrived. Relations of other pairs, including the reverse pair, are untouched.",
     ["inputs", "histories"], "every sequence (up to the bound) of trusts and revocations of a pair with arbitrary 64-bit times",
     "The service's tests cannot run here and store two or three relations with fixed times in one order.",
     [S + "storage_impl.rs"], [("update_relation", S + "storage_impl.rs"), ("PRIMARY KEY (issued_for, issued_by), INSERT OR REPLACE", S + "storage_impl.rs")],
     ["SQLiteStorage::update_auth", "SQLiteStorage::revoke", "SQLiteStorage::get_relation"])
prop("C18", "Expired trusts are dropped, nothing else is ever lost",
     "Removing expired trusts at a time removes every trust that expired before it, and never a trust that expires later (however far in the future), nor any revocation. An expired trust never counts in a returned certificate or weight, and a certificate inserted while valid is found until it expires.",
     ["inputs", "histories"], "every set of stored relations, expiry times and query time",
     "Tests use one expired and one live trust with small times.",
     [S + "storage_impl.rs", T + "trust_graph.rs"], [("remove_expired", S + "storage_impl.rs"), ("get_all_certs / weight call remove_expired", T + "trust_graph.rs")],
     ["SQLiteStorage::remove_expired", "TrustGraph::get_all_certs", "TrustGraph::weight", "insert_cert"])
prop("C19", "The service's answers follow from the history of its calls",
     "After any history of set_root, add_trust and revoke calls, the weight and certificates the service returns for every peer are those determined by the roots last set and, per pair of peers, the latest accepted trust or revocation that is not expired. Each add_trust reports half the issuer's weight at that moment (the whole for a self-trust) and stores the trust exactly if that is positive.",
     ["inputs", "histories"], "every history of calls over a few peers up to the bounded length",
     "Tests run a dozen fixed scenarios; the number of short histories is in the hundreds of thousands.",
     [S + "service_api.rs", S + "storage_impl.rs", S + "misc.rs", T + "trust_graph.rs"],
     [("with_tg over one SQLite database", S + "misc.rs"), ("add_trust / revoke / set_root", S + "service_api.rs"), ("breadth-first chain search", T + "trust_graph.rs")],
     ["add_trust", "revoke", "set_root", "get_weight", "get_all_certs"])
prop("C21", "Only the owner of the service sets roots",
     "set_root changes the set of roots exactly if the caller that started the particle is the creator of the service and the peer id is valid; otherwise it reports an error and changes nothing. The root then has the weight given by its max_chain_len.",
     ["inputs"], "every caller, host, target peer id and 32-bit max_chain_len",
     "Tests try one foreign caller.",
     [S + "service_api.rs", S + "misc.rs"], [("check of init_peer_id against service_creator_peer_id", S + "service_api.rs")],
     ["set_root", "get_weight"])
prop("C22", "Times come from the host, and nothing from the future is accepted",
     "Every service call that takes the current time succeeds only if the tetraplet of exactly that argument says it came from the host's own peer.timestamp_sec, and otherwise reports an error, returns nothing and stores nothing; with a genuine time the call works. Trusts issued and revocations made after that time are refused.",
     ["inputs"], "every call, every arrangement and content of the tetraplets, every issue, expiry and current time",
     "Tests try one wrong tetraplet for some calls.",
     [S + "service_api.rs", S + "misc.rs"], [("check_timestamp_tetraplets", S + "misc.rs"), ("issued_at / revoked_at against the timestamp", S + "service_api.rs")],
     ["get_all_certs", "get_all_certs_from", "get_host_certs", "get_host_certs_from", "get_weight", "get_weight_from",
      "verify_trust", "add_trust", "revoke", "insert_cert", "insert_cert_raw"])
prop("C23", "Transfer objects carry trusts, revocations and certificates intact",
     "Converting a trust, revocation or certificate to its transfer object and back gives the same value for every key with an inlined peer id, signature type, signature bytes and times. Transfer objects with a broken peer id, base58 text or signature type are refused without a panic.",
     ["inputs"], "every key type, signature and 64-bit time, every short broken text",
     "Tests convert a few well-formed trusts on the way through the service.",
     [S + "dto.rs"], [("TryFrom / From between dto and trust_graph types", S + "dto.rs")],
     ["dto::Trust", "dto::Revocation", "dto::Certificate"])
prop("C24", "What a peer signs through the service is accepted and takes effect",
     "A trust built from get_trust_bytes, a signature of the peer and issue_trust has the requested fields, verifies exactly for that peer until it expires, can be added, and then shows in weight and certificates; the same holds for revocations with get_revocation_bytes, issue_revocation and revoke. A trust of another issuer is refused.",
     ["inputs"], "every expiry, issue and revocation time, ed25519 and secp256k1 peers",
     "Tests run the sequence for a few fixed times and one key type.",
     [S + "service_api.rs", S + "dto.rs", T + "trust.rs", T + "revoke.rs"],
     [("get_trust_bytes / issue_trust", S + "service_api.rs"), ("get_revocation_bytes / issue_revocation", S + "service_api.rs")],
     ["get_trust_bytes", "issue_trust", "verify_trust", "add_trust", "issue_revocation", "revoke", "export_revocations"])
prop("C25", "The database gives back what was stored",
     "A stored trust or revocation is read back unchanged by every query of its pair and subject and by no other query, for every key and signature type, signature bytes and 64-bit times. The factor of a root is the one last set, every root is listed exactly once, and a key never set has none.",
     ["inputs", "histories"], "every relation, every sequence of roots up to the bound",
     "Tests store a few ed25519 trusts with small times.",
     [S + "storage_impl.rs"], [("SQL schema and parse_relation", S + "storage_impl.rs"), ("roots table", S + "storage_impl.rs")],
     ["SQLiteStorage::get_relation", "SQLiteStorage::get_authorizations", "SQLiteStorage::get_revocations",
      "SQLiteStorage::root_keys", "SQLiteStorage::get_root_weight_factor"])
prop("C20", "A wrapped public key behaves as the key itself",
     "Two hashable wrappers are equal exactly if their keys are, equal ones have equal hashes, so that a map holds one entry per key and finds it from the key; the text and every serialised form of a wrapper read back as the same key.",
     ["inputs"], "every pair of keys",
     "No test hashes, prints or serialises a wrapper on purpose.",
     [T + "public_key_hashable.rs"], [("Hash, Display, FromStr, Serialize, Deserialize for PublicKeyHashable", T + "public_key_hashable.rs")],
     ["PublicKeyHashable"])
prop("C26", "Serialised keys, signatures, trusts and revocations are lossless",
     "Serialising a public key, signature, trust, authorization or revocation with serde (binary or human-readable format) and reading it back gives an equal value, and different keys have different serialised forms.",
     ["inputs"], "every key, signature and time",
     "Tests serialise one ed25519 key.",
     [K + "public_key.rs", K + "signature.rs", K + "secp256k1.rs", K + "ed25519.rs", K + "rsa.rs", T + "trust.rs", T + "revoke.rs", T + "trust_relation.rs"],
     [("derived and hand-written Serialize/Deserialize", K + "secp256k1.rs"), ("Trust, Revocation, TrustRelation derives", T + "trust_relation.rs")],
     ["PublicKey", "Signature", "Trust", "Revocation", "TrustRelation"])
prop("C27", "Imported secrets are erased from the caller's buffer and never printed",
     "Importing a secp256k1 key from DER or an RSA key from PKCS#8 leaves only zeros in the buffer it was read from whenever it succeeds. The debug form of a secret key is the same for every secret, and that of a key pair does not contain its secret.",
     ["inputs"], "every secret",
     "Tests look at the buffer of one import (another function's) and never at a debug form.",
     [K + "secp256k1.rs", K + "rsa.rs", K + "ed25519.rs"], [("from_der zeroizes", K + "secp256k1.rs"), ("from_pkcs8 zeroizes", K + "rsa.rs"), ("Debug for SecretKey and Keypair", K + "ed25519.rs")],
     ["KeyPair::secp256k1_from_der", "KeyPair::rsa_from_pkcs8", "Debug of keys"])
