#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry

K, T, S = "keypair/src/", "trust-graph/src/", "service/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Signatures verify exactly under the signing key and message",
     "For Ed25519, Secp256k1 and RSA key pairs, a signature made by a key pair verifies under that pair's public key for the signed message, and verification reports an error for any other message, any other public key and any altered or made-up signature. No bytes are accepted as a signature of a message the key pair never signed.",
     ["inputs"], "every message, every pair of keys and key types, every string of signature bytes",
     "Tests sign one or two fixed messages and check acceptance; rejection needs every message, key pair and byte change.",
     [K + "key_pair.rs", K + "public_key.rs", K + "ed25519.rs", K + "secp256k1.rs", K + "rsa.rs", K + "signature.rs"],
     [("PublicKey::verify dispatch", K + "public_key.rs"), ("secp256k1 verify_hashed", K + "secp256k1.rs"), ("KeyPair::sign", K + "key_pair.rs")],
     ["KeyPair::sign", "PublicKey::verify", "KeyPair::verify"])
prop("C02", "Key, signature and key pair encodings are lossless and injective",
     "Decoding the byte or base58 encoding of a public key or signature gives the same key or signature, bytes that decode re-encode to themselves, and different keys or signatures have different encodings. A key pair restored from its byte form or from its secret has the same secret and public key and signs for the original, and a byte form whose halves do not belong together is refused.",
     ["inputs"], "every key and signature of every type, every byte string of the relevant lengths",
     "Tests encode one generated key per type; they cannot show that no byte string decodes to a key with another encoding.",
     [K + "public_key.rs", K + "signature.rs", K + "key_pair.rs", K + "ed25519.rs", K + "secp256k1.rs", K + "rsa.rs"],
     [("type byte + raw bytes", K + "public_key.rs"), ("Signature::encode/decode", K + "signature.rs"), ("KeyPair::from_vec/to_vec/from_secret_key", K + "key_pair.rs")],
     ["PublicKey::encode/decode/from_base58", "Signature::encode/decode", "KeyPair::to_vec/from_vec/secret"])
prop("C03", "Decoders of untrusted bytes never panic or hang",
     "Every decoder of keys, signatures, trusts and certificates, from bytes, base58, text or serialised forms, returns either a value or an error for every input. None panics, aborts or runs forever.",
     ["inputs"], "every byte string and text",
     "Tests feed well-formed encodings and a handful of broken ones; the panics found here needed empty or over-long inputs.",
     [K + "public_key.rs", K + "signature.rs", K + "key_pair.rs", T + "trust.rs", T + "certificate.rs"],
     [("length checks before slicing", T + "trust.rs"), ("line count check", T + "certificate.rs"), ("emptiness checks", K + "public_key.rs")],
     ["PublicKey::decode", "Signature::decode", "KeyPair::from_vec", "Trust::decode", "Certificate::decode", "Certificate::from_str"])
prop("C04", "Peer ids and libp2p keys correspond to keys without loss",
     "Different public keys have different peer ids, a key pair and its public key have the same peer id, and a peer id that inlines its key gives back exactly that key while one that does not is refused. Converting a key or key pair to libp2p's types and back gives the same key, with the same peer id on both sides. The serialised form of a peer id reads back as the same peer id.",
     ["inputs"], "every key of every type",
     "Tests convert single generated keys of some types in one direction.",
     [K + "public_key.rs", K + "key_pair.rs", K + "ed25519.rs", K + "secp256k1.rs", K + "rsa.rs"],
     [("TryFrom<PeerId> for PublicKey", K + "public_key.rs"), ("From<libp2p_identity::Keypair>", K + "key_pair.rs"), ("RSA x509 encoding", K + "rsa.rs")],
     ["PublicKey::to_peer_id", "PublicKey::try_from", "KeyPair::get_peer_id"])
prop("C05", "A trust verifies exactly if unexpired and signed by its issuer",
     "Verifying a trust against an issuer succeeds exactly if the trust does not expire before the current time and its signature was made by that issuer over exactly this subject key, expiry time and issue time (in seconds). Changing any of them, or the issuer, makes verification fail.",
     ["inputs"], "every subject, issuer, signer, expiry, issue and current time",
     "Tests check a valid trust, one expired and one tampered; they cannot cover every pair of signed and stated fields.",
     [T + "trust.rs"], [("Trust::verify", T + "trust.rs"), ("signature message layout", T + "trust.rs")],
     ["Trust::create", "Trust::verify"])
prop("C06", "A revocation verifies exactly if signed; never mixed up with a trust",
     "A revocation verifies exactly if the revoking key signed exactly this revoked key and time. A signature made for a trust is never accepted for a revocation, nor the reverse.",
     ["inputs"], "every key in every role, every time",
     "Tests sign and tamper one revocation; nothing tests the separation of the two messages.",
     [T + "revoke.rs", T + "trust.rs"], [("Revocation::verify", T + "revoke.rs"), ("distinct message layouts", T + "revoke.rs")],
     ["Revocation::create", "Revocation::verify"])
prop("C07", "Binary and text forms of a trust are lossless",
     "Decoding the binary encoding of a trust gives back the same subject, times (in whole seconds) and signature, different trusts have different encodings, and an accepted byte string is exactly the encoding of the trust it decodes to. The text form converts back to the same trust.",
     ["inputs"], "every trust; every byte string offered for decoding",
     "Tests round-trip one trust; a length or offset slip for other sizes or times stays hidden.",
     [T + "trust.rs"], [("Trust::encode/decode", T + "trust.rs"), ("Trust::convert_from_strings and Display", T + "trust.rs")],
     ["Trust::encode", "Trust::decode", "Trust::to_string", "Trust::convert_from_strings"])
prop("C08", "A certificate verifies exactly if rooted, linked and unexpired",
     "Verification of a certificate succeeds exactly if it is not empty, its first key is among the given trusted roots, its first trust is signed by that key itself, every further trust is signed by the key of the trust before it, and no trust in it is expired at the given time. Any other chain is refused.",
     ["inputs"], "every chain of trusts, every signer, set of roots and time",
     "Tests try a few broken chains of length two or three; the defect can be at any place and of any kind.",
     [T + "certificate.rs", T + "trust.rs"], [("Certificate::verify", T + "certificate.rs"), ("Trust::verify", T + "trust.rs")],
     ["Certificate::verify"])
prop("C09", "Issuing extends only verified certificates and yields verifiable ones",
     "A certificate can be extended exactly by keys that occur in it, if it verifies at the current time and the new trust does not expire before it is issued; the result is the chain up to the issuer's last occurrence followed by the new trust. An issued certificate (root or extended) verifies under the same root until it expires.",
     ["inputs"], "every certificate, issuer, subject and time",
     "Tests issue from a fresh root certificate by its last key; issuers in the middle, repeated keys and expired chains are not covered.",
     [T + "certificate.rs"], [("Certificate::issue / issue_with_trust / issue_root / new_from_root_trust", T + "certificate.rs")],
     ["Certificate::issue", "Certificate::issue_with_trust", "Certificate::issue_root", "Certificate::new_from_root_trust"])
prop("C10", "Binary, text and serde forms of a certificate are lossless",
     "Decoding the binary encoding of a certificate with at least two trusts gives back the same chain of trusts, in order. The text form and the serialised forms of a certificate, or of a list of them, give back the same certificate.",
     ["inputs"], "every chain of trusts",
     "Tests round-trip one three-trust certificate with fixed times.",
     [T + "certificate.rs", T + "certificate_serde.rs", T + "trust.rs"],
     [("Certificate::encode/decode", T + "certificate.rs"), ("FromStr/Display", T + "certificate.rs"), ("certificate_serde", T + "certificate_serde.rs")],
     ["Certificate::encode/decode", "Certificate::to_string/from_str"])
prop("C11", "Only genuine, live trusts connected to a root enter the graph",
     "Adding a trust or a certificate stores a trust exactly if it is unexpired, signed by the stated issuer, and the issuer currently has weight; adding reports an error exactly if a trust is expired or not genuine, and stores nothing from there on. A revocation is stored exactly if it is signed by its revoker.",
     ["inputs", "histories"], "every graph content, offered trust, certificate or revocation, and time",
     "Tests add valid certificates and one or two invalid ones to a small graph.",
     [T + "trust_graph.rs", T + "trust.rs", T + "revoke.rs"],
     [("TrustGraph::add / add_trust / revoke", T + "trust_graph.rs")],
     ["TrustGraph::add", "TrustGraph::add_trust", "TrustGraph::revoke", "calls of Storage::update_auth / revoke"],
     [("storage", "the relations a graph holds", T + "trust_graph_storage.rs")])
prop("C12", "Every certificate the graph returns is genuine",
     "Every certificate returned for a key starts with the self-signed trust of a root key, each further trust in it is a stored trust issued by the key before it, it ends at the requested key and verifies under the graph's roots at the queried time.",
     ["inputs", "histories"], "every content of the graph, set of roots, requested key and time",
     "Tests look at the certificates of one or two small fixed graphs.",
     [T + "trust_graph.rs"], [("bf_search_paths / get_all_certs", T + "trust_graph.rs")],
     ["TrustGraph::get_all_certs", "Certificate::verify"])
prop("C13", "The graph returns every valid chain to a key, each exactly once",
     "For every sequence of different keys that leads by stored, unexpired trusts from a root to the requested key and contains no key revoked by an earlier one of the sequence, the certificate of that sequence is returned exactly once. No certificate is returned twice.",
     ["inputs", "histories"], "every content of the graph, set of roots and requested key",
     "Tests compare the result on fixed diamonds and lines; missing chains need particular shapes.",
     [T + "trust_graph.rs"], [("bf_search_paths", T + "trust_graph.rs")], ["TrustGraph::get_all_certs"])
prop("C14", "A revocation by a key cuts every chain through it to the revoked key",
     "No certificate returned by the graph contains a key that an earlier key of the same chain has revoked. The revocations reported for a key are exactly the stored ones.",
     ["inputs", "histories"], "every content of trusts and revocations, set of roots and requested key",
     "Tests revoke one key in one graph; revocation by a distant ancestor or by the direct issuer needs other shapes.",
     [T + "trust_graph.rs"], [("revocation filter of the search", T + "trust_graph.rs")],
     ["TrustGraph::get_all_certs", "TrustGraph::get_revocations"])
prop("C15", "Weight halves per trust and is zero beyond the root's chain length",
     "The weight of a key is the largest over its valid chains of 2^(m-d), where m is the smaller of 16 and the root's max_chain_len and d the number of trusts after the root's own, and a chain with d>m counts zero; a root's own weight is at least 2^m. A key without any such chain has weight zero.",
     ["inputs", "histories"], "every content of the graph, set of roots, 32-bit max_chain_len, requested key and time",
     "Tests check a few sums for fixed graphs and small max_chain_len.",
     [T + "trust_graph.rs"], [("get_weight_from_factor, set_root, weight, certificates_weight_factor", T + "trust_graph.rs")],
     ["TrustGraph::weight", "TrustGraph::set_root"])
prop("C16", "Queries restricted to an issuer are exact restrictions",
     "The certificates returned for a key from an issuer are exactly those returned for the key that contain the issuer. The weight from an issuer is the best weight over exactly those certificates, zero if there are none.",
     ["inputs", "histories"], "every content of the graph, requested key and issuer",
     "Tests query one issuer in one graph.",
     [T + "trust_graph.rs"], [("get_all_certs_from / weight_from", T + "trust_graph.rs")],
     ["TrustGraph::get_all_certs_from", "TrustGraph::weight_from"])

exec(open(os.path.join(V, "tools", "gen_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_more.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

NOTE = ("Bounded: every path of the property's harnesses within the bounds stated in the evidence is executed symbolically "
        "on the LLVM IR compiled from /repo and each assertion is decided by Z3; counterexamples are replayed against the "
        "real crates before they are reported. Trusts the IR interpreter, Z3, rustc, and the ideal models of the "
        "signature schemes, hashes and base58 (see evidence assumptions). Nothing is claimed outside the bounds.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
claimed = [p["id"] for p in P if p["id"] in registry.QUICK]
na = {x["property"] for x in NOT_APPLICABLE}
for p in P:
    assert (p["id"] in claimed) != (p["id"] in na), p["id"]
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (Z3), bounded; counterexamples replayed natively",
                 "level": "model_checking", "level_note": NOTE} for i in claimed],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: every harness uses public API or sources copied at check time."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
