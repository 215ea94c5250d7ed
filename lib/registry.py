"""Which harnesses decide which property.

(entry, crate, required reach tags).  quick entries also run in the thorough
tier; crate is "core" (harness/) or "svc" (the service, harness/svc).
"""

QUICK = {
    "C01": ["h_sig_genuine", "h_sig_genuine_long", "h_sig_tampered", "h_sig_forged",
            "h_sig_hashed"],
    "C02": ["h_pk_codec", "h_pk_codec_real", "h_sig_codec", "h_sig_decode_any", "h_key_format",
            "h_keypair_codec", "h_keypair_mismatch", "h_secp_der"],
    "C03": ["h_decode_total", "h_trust_decode_any", "h_cert_decode_any", "h_cert_parse_any",
            "h_serde_total"],
    "C04": ["h_peer_id", "h_libp2p_keypair", "h_serde_peer", "h_peer_id_any", "h_rsa_any"],
    "C05": ["h_trust_verify", "h_trust_forged"],
    "C06": ["h_revocation_verify", "h_domain_separation", "h_trust_forged"],
    "C07": ["h_trust_codec", "h_trust_codec_injective", "h_trust_decode_any", "h_trust_text",
            "h_trust_codec_rsa"],
    "C08": ["h_cert_verify", "h_cert_verify3", "h_cert_verify_long", "h_cert_verify_types"],
    "C09": ["h_cert_issue", "h_cert_issue_trust", "h_cert_root"],
    "C10": ["h_cert_codec", "h_cert_codec_many", "h_cert_text", "h_cert_codec_rsa", "h_serde_certs"],
    "C11": ["h_graph_add_trust", "h_graph_add_trust2", "h_graph_add_cert", "h_graph_add_empty",
            "h_graph_revoke"],
    "C12": ["h_graph_sound", "h_graph_sound_spine"],
    "C13": ["h_graph_complete", "h_graph_complete_spine"],
    "C14": ["h_graph_revoked", "h_graph_revoked_spine"],
    "C15": ["h_graph_weight", "h_graph_weight_line"],
    "C16": ["h_graph_from", "h_graph_weight_from"],
    "C17": ["s_latest", "s_latest3", "s_latest4"],
    "C18": ["s_gc", "s_gc3", "s_issued_root", "h_graph_expired"],
    "C19": ["s_history"],
    "C20": ["h_hashable", "h_hashable_any", "h_serde_hashable"],
    "C21": ["s_set_root"],
    "C22": ["s_time_certs", "s_time_weight", "s_time_change", "s_future"],
    "C23": ["s_dto", "s_dto_any"],
    "C24": ["s_pipeline"],
    "C25": ["s_store", "s_roots"],
    "C26": ["h_serde_key", "h_serde_trust", "h_serde_relation"],
    "C27": ["h_secret_erased", "h_secret_debug"],
}

THOROUGH = {
    "C09": ["h_cert_issue3", "h_cert_issue_trust3"],
    "C11": ["h_graph_add_cert_long", "h_graph_add_cert3"],
    "C12": ["h_graph_sound4", "h_graph_sound_spine6"],
    "C13": ["h_graph_complete4", "h_graph_complete_spine6"],
    "C14": ["h_graph_revoked4", "h_graph_revoked_spine6"],
    "C15": ["h_graph_weight_rev"],
    "C18": ["s_gc4"],
    "C19": ["s_history_wide", "s_history3"],
    "C25": ["s_store_all"],
}

# what at least one explored path must have reached (guards against vacuity)
REACH = {
    "h_sig_genuine": ["accepted", "rejected"],
    "h_sig_genuine_long": ["accepted", "rejected"],
    "h_pk_codec": ["decoded", "refused"],
    "h_trust_verify": ["accepted", "rejected"],
    "h_revocation_verify": ["accepted", "rejected"],
    "h_trust_decode_any": ["accepted", "refused"],
    "h_cert_verify": ["accepted", "rejected"],
    "h_cert_verify3": ["accepted", "rejected"],
    "h_cert_verify_long": ["accepted", "rejected"],
    "h_cert_issue": ["issued", "refused"],
    "h_cert_issue_trust": ["issued", "refused"],
    "h_cert_parse_any": ["accepted"],
    "h_graph_add_trust": ["stored", "weightless", "refused"],
    "h_graph_add_cert": ["added", "refused"],
    "h_graph_sound": ["certificate"],
    "h_graph_sound_spine": ["certificate"],
    "h_graph_complete": ["path"],
    "h_graph_complete_spine": ["path"],
    "h_graph_from": ["through"],
    "h_hashable_any": ["equal"],
    "h_sig_hashed": ["accepted", "rejected"],
    "h_peer_id_any": ["key", "refused"],
    "h_secret_erased": ["imported"],
    "h_secret_debug": ["printed"],
    "s_set_root": ["set", "refused"],
    "s_time_certs": ["accepted", "refused"],
    "s_time_weight": ["accepted", "refused"],
    "s_time_change": ["accepted", "refused"],
}

# entries of the service harness
SERVICE = {e for q in (QUICK, THOROUGH) for es in q.values() for e in es if e.startswith("s_")}
