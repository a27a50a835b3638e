CLI = "packages/zkenc-cli/src/"; JS = "packages/zkenc-js/src/"; CORE = "packages/zkenc-core/src/"
# instance values (after the constant) that `encap` of the CLI hands over, for a symbol file and inputs given as text
ENC = '''
fn given(c: &C, sym: &str, input: &str) -> std::result::Result<Vec<Fr>, String> {
    let (a, b, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", sym.as_bytes()), put("in.json", input.as_bytes()));
    tap::clear();
    encap_command(&a, &b, &i, &at("ct"), &at("key")).map_err(|e| format!("{:#}", e))?;
    Ok(last_system().unwrap().instance[1..].to_vec())
}
'''
SEEDS = [
 dict(id="C12-a", property="C12", kind="ark", needs="an input object where one key spells the array position of another key's element, as in {\"a\": [1], \"a[0]\": 2}",
  breaks="the second of two leaves with one name silently replaces the first when it is a number",
  edits=[(CLI+"commands.rs", "                if result.insert(key.to_string(), num).is_some() {\n                    anyhow::bail!(\"Input signal {} is given more than once\", key);\n                }", "                result.insert(key.to_string(), num);")],
  demo=ENC + '''fn main() {
    let c = product(0, 3, 3, 4);
    let sym = "1,1,0,main.a[0]\\n2,2,0,main.b\\n3,3,0,main.d\\n";
    assert_eq!(given(&c, sym, r#"{"a": [1], "b": 5, "d": 6}"#).unwrap(), vec![f(1), f(5), f(6)]);
    assert!(given(&c, sym, r#"{"a": ["1"], "a[0]": "2", "b": 5, "d": 6}"#).is_err());
    assert!(given(&c, sym, r#"{"a": [1], "a[0]": 2, "b": 5, "d": 6}"#).is_err());
}'''),
 dict(id="C12-b", property="C12", kind="ark", needs="an array of eleven or more elements nested in another array",
  breaks="positions of ten and more in an inner array lose their last digit's place: inner indices are taken modulo ten",
  edits=[(CLI+"commands.rs", "                    let array_key = format!(\"{}[{}]\", key, idx);", "                    let idx = if key.ends_with(']') { idx % 10 } else { idx };\n                    let array_key = format!(\"{}[{}]\", key, idx);")],
  demo=ENC + '''fn main() {
    let c = product(0, 3, 3, 4);
    let sym = "1,1,0,main.a[0][11]\\n2,2,0,main.a[1][0]\\n3,3,0,main.b[10]\\n";
    let l: Vec<String> = (0..12).map(|x| (100 + x).to_string()).collect(); let l = l.join(",");
    assert_eq!(given(&c, sym, &format!(r#"{{"a": [[{}], [7]], "b": [{}]}}"#, l, l)).unwrap(), vec![f(111), f(7), f(110)]);
}'''),
 dict(id="C16-a", property="C16", kind="ark", needs="an input file with a character outside ASCII",
  breaks="the length of the embedded public inputs counts characters instead of bytes",
  edits=[(CLI+"commands.rs", "            u32::try_from(public_input_bytes.len()).context(\"Public input is too large\")?;", "            u32::try_from(input_json.chars().count()).context(\"Public input is too large\")?;")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (a, s, w) = (put("c.r1cs", &c.r1cs()), put("c.sym", names().as_bytes()), put("w.wtns", &c.wtns()));
    for (k, text) in [r#"{"z": 12, "x": 3, "y": 4}"#, r#"{"z": 12, "x": 3, "y": 4, "größe": 1}"#].iter().enumerate() {
        let i = put("in.json", text.as_bytes()); let m = put("m", b"hello");
        for flag in [false, true] {
            encrypt_command(&a, &s, &i, &m, &at("out"), flag).unwrap();
            let d = std::fs::read(at("out")).unwrap();
            let n = u32::from_be_bytes(d[1..5].try_into().unwrap()) as usize;
            if flag { let p = u32::from_be_bytes(d[5 + n..9 + n].try_into().unwrap()) as usize; assert_eq!(&d[9 + n..9 + n + p], text.as_bytes()); }
            decrypt_command(&a, &w, &at("out"), &at("back")).unwrap();
            assert_eq!(std::fs::read(at("back")).unwrap(), b"hello");
        }
    }
}'''),
 dict(id="C16-b", property="C16", kind="ark", needs="a combined ciphertext whose embedded public inputs are empty (the JavaScript library writes an object of any length; the format allows length 0)",
  breaks="decrypt takes a zero length for a missing section and reads the sealed message four bytes too early",
  edits=[(CLI+"commands.rs", "        offset += 4;\n\n        if combined.len() < offset + public_len {", "        if public_len > 0 {\n            offset += 4;\n        }\n\n        if combined.len() < offset + public_len {")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (a, w) = (put("c.r1cs", &c.r1cs()), put("w.wtns", &c.wtns()));
    let (ct, key) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
    let sealed = zkenc_cli::crypto::encrypt_gcm(&key.0, b"attack at dawn").unwrap(); let ct = ct_bytes(&ct);
    for p in [&b""[..], b"{}", b"{\\"x\\":1}"] {
        let mut d = vec![1u8]; d.extend((ct.len() as u32).to_be_bytes()); d.extend(&ct); d.extend((p.len() as u32).to_be_bytes()); d.extend(p); d.extend(&sealed);
        decrypt_command(&a, &w, &put("in", &d), &at("back")).unwrap();
        assert_eq!(std::fs::read(at("back")).unwrap(), b"attack at dawn");
    }
}'''),
 dict(id="C17-a", property="C17", kind="ark", needs="a decrypt whose message does not authenticate, with a file already at the output path",
  breaks="the output file is opened (and emptied) before the message is authenticated",
  edits=[(CLI+"commands.rs", "    // Step 3: Decrypt message with recovered key\n", "    // Step 3: Decrypt message with recovered key\n    // Fail early when the output cannot be written\n    fs::File::create(output_path).context(\"Failed to write decrypted file\")?;\n")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (a, w) = (put("c.r1cs", &c.r1cs()), put("w.wtns", &c.wtns()));
    let (ct, key) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
    let mut sealed = zkenc_cli::crypto::encrypt_gcm(&key.0, b"attack at dawn").unwrap(); let ct = ct_bytes(&ct);
    sealed[20] ^= 1;
    let mut d = vec![0u8]; d.extend((ct.len() as u32).to_be_bytes()); d.extend(&ct); d.extend(&sealed);
    let i = put("in", &d);
    put("old", b"precious");
    assert!(decrypt_command(&a, &w, &i, &at("old")).is_err());
    assert_eq!(std::fs::read(at("old")).unwrap(), b"precious");
    assert!(decrypt_command(&a, &w, &i, &at("new")).is_err());
    assert!(!std::path::Path::new(&at("new")).exists());
}'''),
 dict(id="C18-a", property="C18", kind="ark", needs="an unknown section whose size is not a multiple of four before the data",
  breaks="unknown sections are skipped up to the next multiple of four",
  edits=[(CLI+"witness.rs", "                    let mut skip = vec![0u8; section_size as usize];", "                    // sections are padded to whole words\n                    let mut skip = vec![0u8; section_size.next_multiple_of(4) as usize];")],
  demo='''fn main() {
    let v: Vec<Vec<u8>> = (0..3u8).map(|x| vec![x; 32]).collect();
    let s = wtns_sections(&modulus_le(), &v);
    for n in [0usize, 4, 8, 5, 7] {
        let p = put("w.wtns", &build_wtns(2, &[(9, vec![1; n]), s[0].clone(), s[1].clone()]));
        let w = zkenc_cli::witness::WitnessFile::from_file(&p).unwrap();
        assert_eq!(w.n_witness, 3); for i in 0..3 { assert_eq!(w.assignments[&i], v[i as usize]); }
    }
}'''),
 dict(id="C19-a", property="C19", kind="ark", needs="a witness file with elements narrower than 32 bytes",
  breaks="narrow elements are copied to the high end of the 32 bytes",
  edits=[(JS+"lib.rs", "                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);", "                bytes[32 - copy_len..].copy_from_slice(&data[pos..pos + copy_len]);")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    for w in [32usize, 8, 1] {
        let vals: Vec<Vec<u8>> = [1u8, 12, 3, 4, 144].iter().map(|x| { let mut b = vec![0u8; w]; b[0] = *x; b }).collect();
        let p = { let mut m = modulus_le(); m.truncate(w); m };
        tap::clear();
        zkenc_js::wasm_encap(&c.r1cs(), &build_wtns(2, &wtns_sections(&p, &vals))).unwrap();
        assert_eq!(last_system().unwrap().instance, vec![f(1), f(12), f(3), f(4)]);
    }
}'''),
 dict(id="C19-b", property="C19", kind="ark", needs="a circuit file cut short inside its last section",
  breaks="a last section that runs past the end is clamped to the end instead of refused",
  edits=[(JS+"lib.rs", "        if section_len > (data.len() - section_start) as u64 {\n            return Err(\"Section runs past the end of data\".to_string());\n        }\n        let section_len = section_len as usize;", "        let section_len = section_len.min((data.len() - section_start) as u64) as usize;")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4); let b = c.r1cs();
    zkenc_js::wasm_encap(&b, &c.wtns()).unwrap();
    for k in 1..30 { assert!(zkenc_js::wasm_encap(&b[..b.len() - k], &c.wtns()).is_err(), "cut {}", k); }
}'''),
 dict(id="C20-a", property="C20", kind="ark", needs="a linear combination that names one wire twice",
  breaks="of two terms of one wire the CLI keeps only the last",
  edits=[(CLI+"circuit.rs", "            let a_factors = constraint.a.factors.clone();", "            let mut a_factors = constraint.a.factors.clone();\n            a_factors.reverse();\n            a_factors.sort_by_key(|(wire_id, _)| *wire_id);\n            a_factors.dedup_by_key(|(wire_id, _)| *wire_id);")],
  demo='''fn main() {
    for same in [false, true] {
        let k = if same { 2 } else { 3 };
        let c = C::of(&json!({"no": 0, "ni": 3, "nw": 5, "fs": 32, "rows": [[[[2, one()], [k, one()]], [[3, one()]], [[1, one()]]]], "vals": vals(&[1, 24, 3, 4, 9])}));
        let mut x = CircomCircuit::from_r1cs(&put("c.r1cs", &c.r1cs())).unwrap();
        x.set_witness((0..5).map(|i| (i, c.vals[i as usize])).collect());
        let cs = ConstraintSystem::<Fr>::new_ref();
        x.generate_constraints(cs.clone()).unwrap();
        c.check_rows(&cs.borrow().unwrap()).unwrap();
    }
}'''),
 dict(id="C20-b", property="C20", kind="ark", needs="a wire map that lacks a private wire which no constraint uses",
  breaks="private wires that no constraint names get the value zero instead of being reported as missing",
  edits=[(CLI+"circuit.rs", "            let value = self.witness.get(&wire_id).copied();\n            let var = cs.new_witness_variable(", "            let used = self.r1cs.constraints.iter().any(|c| {\n                [&c.a, &c.b, &c.c]\n                    .iter()\n                    .any(|lc| lc.factors.iter().any(|(w, _)| *w == wire_id))\n            });\n            let value = match self.witness.get(&wire_id).copied() {\n                // an unconstrained wire may hold anything\n                None if !used => Some(Fr::from(0u64)),\n                value => value,\n            };\n            let var = cs.new_witness_variable(")],
  demo='''fn main() {
    let c = C::of(&json!({"no": 0, "ni": 2, "nw": 5, "fs": 32, "rows": [[[[2, one()]], [[3, one()]], [[1, one()]]]], "vals": vals(&[1, 12, 3, 4, 9])}));
    for miss in 1..5u32 {
        let mut x = CircomCircuit::from_r1cs(&put("c.r1cs", &c.r1cs())).unwrap();
        x.set_witness((0..5).filter(|i| *i != miss).map(|i| (i, c.vals[i as usize])).collect());
        let cs = ConstraintSystem::<Fr>::new_ref();
        assert_eq!(x.generate_constraints(cs.clone()).unwrap_err(), SynthesisError::AssignmentMissing, "wire {}", miss);
    }
}'''),
 dict(id="C21-a", property="C21", kind="ark", needs="a ciphertext that records more public inputs than the circuit has",
  breaks="recorded inputs beyond the circuit's own are not compared",
  edits=[(CORE+"algorithm.rs", "    if num_instance < 1 + ciphertext.public_inputs.len() {\n        return Err(Error::InvalidPublicInputs);\n    }\n    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {", "    for (i, expected) in ciphertext\n        .public_inputs\n        .iter()\n        .enumerate()\n        .take(num_instance - 1)\n    {")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (mut ct, k) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
    assert_eq!(decap::<Bn254, _>(ours(&c, 5), &ct).unwrap().0, k.0);
    ct.public_inputs.push(f(144));
    assert!(decap::<Bn254, _>(ours(&c, 5), &ct).is_err());
}'''),
 dict(id="C21-b", property="C21", kind="ark", needs="a ciphertext made for a public input that is zero, opened with a witness where it is not",
  breaks="a recorded zero counts as not given, so it matches any public value",
  edits=[(CORE+"algorithm.rs", "        if &full_assignment[i + 1] != expected {", "        if *expected != E::ScalarField::default() && &full_assignment[i + 1] != expected {")],
  demo='''fn main() {
    let (c, z) = (product(0, 3, 3, 4), product(0, 3, 0, 4));
    for (m, ok) in [(&z, true), (&c, false)] {
        let (ct, k) = encap::<Bn254, _, _>(ours(&z, 4), &mut Own(Rng::new(5), 0)).unwrap();
        assert_eq!(decap::<Bn254, _>(ours(m, 5), &ct).is_ok(), ok);
    }
}'''),
 dict(id="C22-a", property="C22", kind="ark", needs="a look at the algebra of the ciphertext: keys still round-trip",
  breaks="the evaluation point is derived from alpha and r instead of being drawn",
  edits=[(CORE+"algorithm.rs", "    let x = E::ScalarField::rand(rng);", "    let x = alpha * r;")],
  demo='''fn main() {
    let c = product(0, 4, 3, 4);
    tap::clear();
    encap::<Bn254, _, _>(ours(&c, 5), &mut Own(Rng::new(5), 0)).unwrap();
    assert!(tap::draws().len() >= 5, "{} secrets drawn", tap::draws().len());
}'''),
 dict(id="C22-b", property="C22", kind="ark", needs="a circuit whose number of constraints is just below a power of two, with all wires public",
  breaks="the domain only counts constraints, so it is smaller than constraints plus instance variables",
  edits=[(CORE+"r1cs_to_qap.rs", "    let domain_size = num_constraints(cs) + num_public_inputs(cs);", "    let domain_size = num_constraints(cs).max(num_public_inputs(cs));")],
  demo='''fn main() {
    let row = json!([[[1, one()]], [[0, one()]], [[1, one()]]]);
    for n in 1..9usize {
        let rows: Vec<Value> = (0..n).map(|_| row.clone()).collect();
        let c = C::of(&json!({"no": 0, "ni": 1, "nw": 2, "fs": 32, "rows": rows, "vals": vals(&[1, 7])}));
        tap::clear();
        encap::<Bn254, _, _>(ours(&c, 2), &mut Own(Rng::new(5), 0)).unwrap();
        assert!(!tap::domains().is_empty());
        for (_, size) in tap::domains() { assert!(size >= n + 2, "domain of {} for {} constraints and 2 instance variables", size, n); }
    }
}'''),
 dict(id="C23-a", property="C23", kind="ark", needs="a public input that is zero and is not the last one",
  breaks="public inputs of value zero are left out of the ciphertext's list, which moves the later ones to other positions",
  edits=[(CORE+"algorithm.rs", "        Ok(assignment) => assignment[1..].to_vec(), // Skip the constant 1 at index 0", "        // Skip the constant 1 at index 0 and inputs that contribute nothing\n        Ok(assignment) => assignment[1..]\n            .iter()\n            .filter(|a| **a != E::ScalarField::default())\n            .cloned()\n            .collect(),")],
  demo='''fn main() {
    for (x, y) in [(3, 4), (3, 0), (0, 4), (0, 0)] {
        let c = product(0, 3, x, y);
        let (ct, k) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
        assert_eq!(decap::<Bn254, _>(ours(&c, 5), &ct).unwrap().0, k.0, "{} {}", x, y);
    }
}'''),
 dict(id="C25-a", property="C25", kind="ark", needs="an expected list that goes on after the recorded inputs",
  breaks="only a shorter expected list is refused",
  edits=[(CORE+"algorithm.rs", "    if ciphertext.public_inputs.len() != expected_public_inputs.len() {", "    if ciphertext.public_inputs.len() > expected_public_inputs.len() {")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (ct, _) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
    assert!(verify_ciphertext::<Bn254>(&ct, &[f(12), f(3), f(4)]));
    assert!(!verify_ciphertext::<Bn254>(&ct, &[f(12), f(3)]));
    assert!(!verify_ciphertext::<Bn254>(&ct, &[f(12), f(3), f(5)]));
    assert!(!verify_ciphertext::<Bn254>(&ct, &[f(12), f(3), f(4), f(144)]));
}'''),
 dict(id="C27-a", property="C27", kind="ark", needs="a circuit with public outputs, through encrypt (encap is unchanged)",
  breaks="encrypt binds only as many public signals as there are public inputs, not public outputs",
  edits=[(CLI+"commands.rs", "        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Create witness map", "        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Create witness map")],
  demo='''fn main() {
    for no in [0, 1] {
        let c = product(no, 3 - no, 3, 4);
        let (a, s, i, m) = (put("c.r1cs", &c.r1cs()), put("c.sym", names().as_bytes()), put("in.json", br#"{"y": 4, "x": 3, "z": 12}"#), put("m", b"hello"));
        tap::clear();
        encrypt_command(&a, &s, &i, &m, &at("out"), false).unwrap();
        assert_eq!(last_system().unwrap().instance, vec![f(1), f(12), f(3), f(4)]);
    }
}'''),
 dict(id="C27-b", property="C27", kind="ark", needs="a public input whose value is zero",
  breaks="inputs with value zero are taken for absent and bind no wire in encap",
  edits=[(CLI+"commands.rs", "    // Use symbol file to map inputs correctly (key order independent)\n    for (key, value) in inputs.iter() {\n        // Try to find the wire ID for this input key\n        if let Some(&wire_id) = input_signals.get(key) {\n            witness.insert(wire_id, *value);\n        }\n    }\n\n    println!(\"\\n🔐 Running Encap...\");", "    // Use symbol file to map inputs correctly (key order independent)\n    for (key, value) in inputs.iter().filter(|(_, value)| **value != Fr::default()) {\n        // Try to find the wire ID for this input key\n        if let Some(&wire_id) = input_signals.get(key) {\n            witness.insert(wire_id, *value);\n        }\n    }\n\n    println!(\"\\n🔐 Running Encap...\");")],
  demo=ENC + '''fn main() {
    let c = product(0, 3, 3, 4);
    assert_eq!(given(&c, &names(), r#"{"z": 12, "x": 3, "y": 4}"#).unwrap(), vec![f(12), f(3), f(4)]);
    assert_eq!(given(&c, &names(), r#"{"z": 0, "x": 0, "y": 4}"#).unwrap(), vec![f(0), f(0), f(4)]);
}'''),
 dict(id="C28-a", property="C28", kind="ark", needs="a full witness file (one value per wire) given to wasm_encap",
  breaks="when the witness is complete the private values are handed to the core as well",
  edits=[(JS+"lib.rs", "    for i in 0..=(n_pub as u32) {", "    // a complete witness needs no cutting\n    let last = if witness_values.len() == header.n_wires as usize {\n        header.n_wires - 1\n    } else {\n        n_pub as u32\n    };\n    for i in 0..=last {")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    for n in [4, 5] {
        let w = build_wtns(2, &wtns_sections(&modulus_le(), &c.vals[..n].iter().map(|x| x.to_bytes().to_vec()).collect::<Vec<_>>()));
        tap::clear();
        let e = zkenc_js::wasm_encap(&c.r1cs(), &w).unwrap();
        let s = last_system().unwrap();
        assert_eq!(s.instance, vec![f(1), f(12), f(3), f(4)]); assert!(s.witness.is_empty(), "private values given");
    }
}'''),
 dict(id="C28-b", property="C28", kind="ark", needs="a witness file with more values than the circuit has wires",
  breaks="wasm_decap ignores surplus witness values",
  edits=[(JS+"lib.rs", "    if witness_values.len() != header.n_wires as usize {", "    if witness_values.len() < header.n_wires as usize {")],
  demo='''fn main() {
    let c = product(0, 3, 3, 4);
    let (ct, k) = encap::<Bn254, _, _>(ours(&c, 4), &mut Own(Rng::new(5), 0)).unwrap();
    let mut v: Vec<Vec<u8>> = c.vals.iter().map(|x| x.to_bytes().to_vec()).collect();
    assert_eq!(zkenc_js::wasm_decap(&c.r1cs(), &build_wtns(2, &wtns_sections(&modulus_le(), &v)), &ct_bytes(&ct)).unwrap(), k.0.to_vec());
    v.push(f(7).to_bytes().to_vec());
    assert!(zkenc_js::wasm_decap(&c.r1cs(), &build_wtns(2, &wtns_sections(&modulus_le(), &v)), &ct_bytes(&ct)).is_err());
}'''),

 dict(id="C29-a", property="C29", kind="prog", needs="decap with the documented short name -c for the circuit",
  breaks="the short names of decap's circuit and ciphertext options change places: -c names the ciphertext",
  edits=[(CLI+"main.rs", "    Decap {\n        /// R1CS circuit file path (.r1cs)\n        #[arg(short, long)]", "    Decap {\n        /// R1CS circuit file path (.r1cs)\n        #[arg(short = 'r', long)]"), (CLI+"main.rs", "        /// Ciphertext file path\n        #[arg(long)]", "        /// Ciphertext file path\n        #[arg(short = 'c', long)]")],
  demo="""fn main() {
    let c = product(0, 3, 3, 4);
    let (a, s, w, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", names().as_bytes()), put("w.wtns", &c.wtns()), put("in.json", br#"{"z": 12, "x": 3, "y": 4}"#));
    let o = zkenc(&["encap", "-c", &a, "--sym", &s, "-i", &i, "--ciphertext", &at("ct"), "-k", &at("key")]);
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    let o = zkenc(&["decap", "--circuit", &a, "-w", &w, "--ciphertext", &at("ct"), "-k", &at("key1")]);
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    let o = zkenc(&["decap", "-c", &a, "-w", &w, "--ciphertext", &at("ct"), "-k", &at("key2")]);
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    for k in ["key1", "key2"] { assert_eq!(std::fs::read(at(k)).unwrap(), std::fs::read(at("key")).unwrap()); }
}"""),
 dict(id="C29-b", property="C29", kind="prog", needs="a decryption that fails (another circuit's witness)",
  breaks="decrypt reports success although it failed",
  edits=[(CLI+"main.rs", "            commands::decrypt_command(&circuit, &witness, &ciphertext, &output)?;", "            if let Err(e) = commands::decrypt_command(&circuit, &witness, &ciphertext, &output) {\n                eprintln!(\"Error: {:#}\", e);\n            }")],
  demo="""fn main() {
    let c = product(0, 3, 3, 4);
    let (a, s, w, i, m) = (put("c.r1cs", &c.r1cs()), put("c.sym", names().as_bytes()), put("w.wtns", &c.wtns()), put("in.json", br#"{"z": 12, "x": 3, "y": 4}"#), put("m", b"hello"));
    let bad = put("bad.wtns", &product(0, 3, 5, 6).wtns());
    let o = zkenc(&["encrypt", "--circuit", &a, "--sym", &s, "--input", &i, "--message", &m, "--output", &at("ct")]);
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    let o = zkenc(&["decrypt", "--circuit", &a, "--witness", &w, "--ciphertext", &at("ct"), "--output", &at("good")]);
    assert!(o.status.success() && std::fs::read(at("good")).unwrap() == b"hello");
    let o = zkenc(&["decrypt", "--circuit", &a, "--witness", &bad, "--ciphertext", &at("ct"), "--output", &at("none")]);
    assert!(!o.status.success() && std::fs::read(at("none")).is_err());
}"""),
 dict(id="C29-c", property="C29", kind="prog", needs="a message file that is also the input file",
  breaks="the public inputs are left out of the output although --no-public-input was not given, when the message is the input file",
  edits=[(CLI+"main.rs", "&output, !no_public_input)", "&output, !no_public_input && message != input)")],
  demo="""fn main() {
    let c = product(0, 3, 3, 4);
    let (a, s, i, m) = (put("c.r1cs", &c.r1cs()), put("c.sym", names().as_bytes()), put("in.json", br#"{"z": 12, "x": 3, "y": 4}"#), put("m", b"hello"));
    for (k, (m, no)) in [(&m, false), (&i, false), (&m, true), (&i, true)].into_iter().enumerate() {
        let mut v = vec!["encrypt", "--circuit", &a, "--sym", &s, "--input", &i, "--message", m, "--output"];
        let out = at(&format!("o{}", k)); v.push(&out); if no { v.push("--no-public-input"); }
        let o = zkenc(&v);
        assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
        assert_eq!(std::fs::read(&out).unwrap()[0], !no as u8);
    }
}"""),
]
