"""Which proof units, functions and harness suites decide which property."""
CLI = "packages/zkenc-cli/src/"
JS = "packages/zkenc-js/src/"
CORE = "packages/zkenc-core/src/"

R1CS_LOAD = {"read_u32", "read_u64", "parse_lc", "parse_constraints", "parse_wire2label", "parse_header", "from_file", "n_public_inputs"}
PROPS = {
    "C01": dict(files=[CLI + "crypto.rs", JS + "crypto.ts"], units={"crypto": {"encrypt_gcm", "decrypt_gcm"}, "ts_crypto": {"aesGcmEncrypt", "aesGcmDecrypt"}}, harness=[("ha", "C01"), ("ts", "C01")], level="proof"),
    "C02": dict(files=[CLI + "crypto.rs", JS + "crypto.ts"], units={"crypto": {"decrypt_gcm"}, "ts_crypto": {"aesGcmDecrypt"}}, harness=[("ha", "C02"), ("ts", "C02")], level="proof"),
    "C03": dict(files=[CLI + "crypto.rs", JS + "crypto.ts"], units={"crypto": {"encrypt_gcm", "encrypt_ctr"}, "ts_crypto": {"aesGcmEncrypt"}}, harness=[("ha", "C03"), ("ts", "C03")], level="proof"),
    "C04": dict(files=[CLI + "crypto.rs"], units={"crypto": {"encrypt_ctr", "decrypt_ctr"}}, harness=[("ha", "C04")], level="proof"),
    "C05": dict(files=[CLI + "r1cs.rs"], units={"interop_r1cs": {"lemma_same_circuit"}, "r1cs": R1CS_LOAD}, harness=[("ha", "C05")], level="proof"),
    "C06": dict(files=[CLI + "r1cs.rs"], units={"r1cs": R1CS_LOAD}, harness=[("ha", "C06")], level="proof"),
    "C07": dict(files=[CLI + "r1cs.rs", CLI + "serializable.rs"], units={"r1cs": {"to_serializable"}}, harness=[("ha", "C07")], level="proof"),
    "C08": dict(files=[CLI + "serializable.rs", CORE + "serializable.rs"], units={"serial": None, "serialc": None}, harness=[("ha", "C08")], level="proof"),
    "C09": dict(files=[CLI + "sym_parser.rs", JS + "sym_parser.ts"], units={"sym": {"parse_sym_file"}, "ts_sym": {"parseSymFile"}}, harness=[("ha", "C09"), ("ts", "C09")], level="proof"),
    "C10": dict(files=[CLI + "sym_parser.rs", JS + "sym_parser.ts"], units={"sym": {"get_input_signals"}, "ts_sym": {"getInputSignals"}}, harness=[("ha", "C10"), ("ts", "C10")], level="proof"),
    "C11": dict(files=[CLI + "circom.rs"], units={"circom": {"parse_inputs", "flatten_value"}}, harness=[("ha", "C11")], level="proof"),
    "C13": dict(files=[JS + "sym_parser.ts"], units={"ts_sym": {"mapInputsToWires", "mapInputsToWires__flattenInput"}}, harness=[("ts", "C13")], level="proof"),
    "C14": dict(files=[JS + "zkenc.ts", JS + "sym_parser.ts"], units={"interop_wasm": {"lemma_read_back", "lemma_public_values_arrive"}, "ts_wtns": {"bigIntToLeBytes32", "serializeWitnessSimple"}, "ts_encap": {"encap"}, "ts_sym": {"parseSymFile", "getInputSignals", "mapInputsToWires", "mapInputsToWires__flattenInput"}}, harness=[("ts", "C14")], level="proof"),
    "C15": dict(files=[JS + "zkenc.ts"], units={"interop_cont": {"lemma_same_container", "lemma_same_parts", "lemma_cross"}, "ts_container": {"encrypt", "decap", "decrypt", "getPublicInput", "lemma_split", "lemma_container_round_trip"}, "ts_encap": {"#"}, "ts_crypto": {"#"}}, harness=[("ts", "C15")], level="proof"),
    "C12": dict(files=[CLI + "commands.rs"], units={"commands": {"flatten_value", "parse_circuit_inputs_with_keys"}}, harness=[("hb", "C12")], level="proof"),
    "C16": dict(files=[CLI + "commands.rs", CLI + "crypto.rs"], units={"interop_cont": {"lemma_same_container", "lemma_same_parts", "lemma_cross"}, "commands": {"encrypt_command", "decrypt_command"}}, harness=[("hb", "C16")], level="proof"),
    "C17": dict(files=[CLI + "commands.rs"], units={"commands": {"#", "decap_command"}}, harness=[("hb", "C17")], level="proof"),
    "C18": dict(files=[CLI + "witness.rs"], units={"witness": {"from_file", "to_field_elements", "read_u32_le", "read_u64_le"}}, harness=[("hb", "C18")], level="proof"),
    "C19": dict(files=[JS + "lib.rs"], units={"interop_r1cs": {"lemma_same_circuit"}, "jslib": {"parse_r1cs", "read_u32", "read_u64", "parse_linear_combination", "parse_witness", "n_public_inputs"}}, harness=[("hb", "C19")], level="proof"),
    "C20": dict(files=[CLI + "circuit.rs", JS + "lib.rs"], units={"circuit": None, "jslib": {"bytes_to_fr", "build_lc", "generate_constraints", "n_public_inputs"}, "wasm": {"#"}}, harness=[("hb", "C20")], level="proof"),
    "C21": dict(files=[CORE + "algorithm.rs"], units={"core": {"decap", "new"}}, harness=[("hb", "C21")], level="proof"),
    "C22": dict(files=[CORE + "algorithm.rs", CORE + "r1cs_to_qap.rs", CLI + "commands.rs", JS + "lib.rs"], units={"commands": {"#"}, "wasm": {"#"}, "core": {"encap", "evaluate_qap_polynomials_at_x", "num_public_inputs", "num_witness_variables", "num_variables", "num_constraints", "new"}}, harness=[("hb", "C22")], level="proof"),
    "C23": dict(files=[CORE + "algorithm.rs", CORE + "r1cs_to_qap.rs"], units={"core": {"encap", "decap", "evaluate_qap_polynomials_at_x", "num_public_inputs", "num_witness_variables", "num_variables", "num_constraints", "new"}}, harness=[("hb", "C23")], level="proof"),
    "C25": dict(files=[CORE + "algorithm.rs"], units={"core": {"verify_ciphertext"}}, harness=[("hb", "C25")], level="proof"),
    "C28": dict(files=[JS + "lib.rs"], units={"interop_wasm": {"lemma_read_back", "lemma_public_values_arrive"}, "wasm": {"wasm_encap", "wasm_decap", "lemma_parsed"}}, harness=[("hb", "C28")], level="proof"),
    "C27": dict(files=[CLI + "commands.rs", CLI + "sym_parser.rs"], units={"commands": {"#", "encap_command", "n_public_inputs", "from_r1cs", "set_witness"}, "sym": {"parse_sym_file", "get_input_signals"}}, harness=[("hb", "C27")], level="proof"),
    "C29": dict(files=[CLI + "main.rs", CLI + "commands.rs"], units={"cli": None, "commands": {"#"}}, harness=[("hc", "C29")], level="proof"),
    "C30": dict(files=[JS + "zkenc.ts"], units={"ts_init": None, "ts_encap": {"#"}, "ts_container": {"#"}}, harness=[("ts", "C30")], level="proof"),
    "C26": dict(files=[JS + "witness_calculator.ts", JS + "witness.ts"], units={"interop_cli": {"lemma_read_back", "lemma_values_read_back"}, "interop_wasm": {"lemma_read_back"}, "ts_limbs": None, "ts_wc": None}, harness=[("ts", "C26")], level="proof"),
}
NOT_APPLICABLE = {
    "C24": "Secrecy ranges over all efficient procedures and over probability; a functional contract cannot express it. (It would fail: the key is a function of alpha_g1 and beta_g2 in the ciphertext alone, see DESIGN.md.)",
}
