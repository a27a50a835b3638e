#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
        "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"

p("C01","AES-GCM envelopes open to exactly the message that was sealed",
 "For every 32-byte key and every message, sealing in the CLI library or in the JavaScript library gives an envelope that is 12 nonce bytes, then the AES-256-GCM encryption of the message (no associated data) and its 16-byte tag, hence exactly 28 bytes longer than the message. Opening that envelope with the same key, in either library, returns the message unchanged. A key of any length other than 32 bytes is refused with an error by sealing and by opening.",
 ["inputs"],"all keys (of every length), all messages including the empty one and long ones, all nonces the generator may return",
 "The unit tests seal three short fixed messages; a layout slip that needs a particular length or a cross-library pair never shows in them.",
 [CLI+"crypto.rs",JS+"crypto.ts"],
 [("encrypt_gcm / decrypt_gcm",CLI+"crypto.rs"),("aesGcmEncrypt / aesGcmDecrypt",JS+"crypto.ts")],
 observe=["return values of the four functions"])
p("C02","A tampered AES-GCM envelope never yields plaintext",
 "Opening an envelope returns a plaintext only if the nonce, the ciphertext and the full 16-byte tag that are in it authenticate under the given key; an envelope with any byte changed, bytes removed or appended, or opened with another key, is reported as an error. No byte string given as an envelope, however short, makes opening crash (CLI library) or do anything but reject (JavaScript library).",
 ["inputs"],"all keys, all byte strings offered as envelopes, in particular all single and multiple modifications of honest envelopes",
 "The tests flip one byte or use one wrong key; they cannot visit every position, truncation length or combination.",
 [CLI+"crypto.rs",JS+"crypto.ts"],
 [("decrypt_gcm",CLI+"crypto.rs"),("aesGcmDecrypt",JS+"crypto.ts")])
p("C03","Every encryption draws a completely fresh random nonce",
 "Each AES-GCM sealing (CLI library, JavaScript library) and each AES-CTR encryption takes its whole nonce (12 bytes for GCM, 16-byte IV for CTR) from the system's secure random generator during that very call, and uses exactly those bytes both for encrypting and as the prefix of the output. No byte of the nonce is constant, derived from the key or message, or kept from an earlier call, so that two encryptions never share a nonce except by chance.",
 ["inputs","histories"],"all keys, messages and sequences of calls in one process or in several",
 "The tests check at most that two calls differ; a nonce that is partly constant, counter-based or reused after many calls passes them.",
 [CLI+"crypto.rs",JS+"crypto.ts"],
 [("generate_nonce / OsRng",CLI+"crypto.rs"),("thread_rng().fill_bytes",CLI+"crypto.rs"),("crypto.getRandomValues",JS+"crypto.ts")])
p("C04","AES-CTR encryption round-trips and is standard AES-256-CTR",
 "For every 32-byte key and every message, CTR encryption gives a 16-byte IV followed by the AES-256 counter-mode encryption of the message under that IV (big-endian 64-bit counter in the last 8 IV bytes), so exactly 16 bytes longer, and CTR decryption with the same key returns the message, of any length. Keys not of 32 bytes, and data shorter than 16 bytes, are refused with an error, never with a crash.",
 ["inputs"],"all keys of every length, all messages and all byte strings offered for decryption",
 "Tests use a handful of short messages and lengths.",
 [CLI+"crypto.rs"],[("encrypt_ctr / decrypt_ctr",CLI+"crypto.rs")])
p("C05","Loading an R1CS file returns exactly the circuit in the file",
 "For every well-formed R1CS version 1 file, loading returns the header numbers, the prime, every constraint with every (wire, coefficient) factor in file order, and the wire labels, exactly as stored. This holds whatever the order of the sections, whatever unknown sections lie between them (they are skipped), whatever the coefficient width the header states, and with labels 0..n-1 supplied when the label section is absent.",
 ["inputs"],"all well-formed R1CS files: all section orders and unknown sections, any number of constraints and factors, any coefficient width",
 "The tests load a few fixed files with the usual section order and 32-byte coefficients.",
 [CLI+"r1cs.rs"],[("R1csFile::from_file, parse_header, parse_constraints, parse_lc, parse_wire2label, read_u32, read_u64",CLI+"r1cs.rs")])
p("C06","A damaged R1CS file is reported as an error, never half-loaded",
 "For every byte string, loading it as an R1CS file ends with a circuit or an error, never with a crash or an endless loop. A file with a wrong magic or version, without a header or constraint section, with a section that runs past the end of the file, cut short anywhere inside the data that the header promises, or whose header or constraints refer to wires that it does not declare, gives an error rather than a partial or padded circuit.",
 ["inputs"],"all byte strings, in particular every truncation and every field corruption of valid files",
 "The tests try one missing file; the space of truncations and corrupt length fields is unbounded.",
 [CLI+"r1cs.rs"],[("R1csFile::from_file and its section parsers",CLI+"r1cs.rs")])
p("C07","Exporting a parsed circuit loses and changes nothing",
 "The exported form of a parsed R1CS circuit has the same field size, prime, wire counts, constraint count, and the same constraints in the same order: each of the A, B and C combinations keeps its own factors, each with its wire number and coefficient bytes, in order and number.",
 ["inputs"],"all parsed circuits",
 "The tests compare counts on fixed circuits; a swap of B and C, or a dropped factor in one position, can keep the counts.",
 [CLI+"r1cs.rs"],[("R1csFile::to_serializable",CLI+"r1cs.rs")])
p("C08","Saved circuits, witnesses and test cases load back equal",
 "For every circuit, witness and test case in the exchange format, writing it as JSON, as bincode, or to a file in either form and loading it back gives an equal value in every field, including large coefficients, empty lists, optional labels and descriptions and any characters in the texts. Text that is not one complete value of that form, and bytes that are cut short, are reported as an error, and saving over an existing file replaces its whole content.",
 ["inputs"],"all values of the three record types, all file contents offered for loading",
 "Tests round-trip one or two small values and compare a few fields.",
 [CLI+"serializable.rs",CORE+"serializable.rs"],
 [("to_json/from_json/save_json/load_json, to_bincode/from_bincode/save_bincode/load_bincode",CLI+"serializable.rs"),("the same module",CORE+"serializable.rs")])
p("C09","A .sym file is read as exactly its signal-to-wire map",
 "Reading a Circom .sym text gives the map that takes the name (fourth field, trimmed) of every line with exactly four comma-separated fields and a wire number of 0 or more to that wire number; lines with another number of fields and lines with a negative wire number add nothing, and the last line for a name wins. The CLI library and the JavaScript library give the same map for the same well-formed text, with LF or CRLF line ends; the CLI library reports an error when a four-field line has a wire field that is not a 32-bit integer.",
 ["inputs"],"all .sym texts: any number and order of lines, any names, blanks and line ends",
 "Tests parse a handful of short texts and two fixed files.",
 [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("parse_sym_file",CLI+"sym_parser.rs"),("parseSymFile",JS+"sym_parser.ts")])
p("C10","Input signals are selected exactly by prefix and wire bound",
 "From a signal-to-wire map, the input-signal selection returns exactly the signals whose name starts with \"main.\", under the name without that one prefix and with unchanged wire number, restricted, when a maximum wire number is given, to wires not above it. The source map is not changed, and the CLI and JavaScript libraries agree.",
 ["inputs"],"all signal maps, all bounds including none, 0 and the largest",
 "Tests use tiny maps and one bound.",
 [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("get_input_signals",CLI+"sym_parser.rs"),("getInputSignals",JS+"sym_parser.ts")])
p("C11","JSON circuit inputs are flattened completely and in order",
 "Reading a JSON input file whose top level is an object gives, for every key of it, the list of its leaf values as text, in document order through arrays nested to any depth: strings as they are, numbers in their JSON digits, true and false as 1 and 0, null as 0, nested objects contributing nothing, for nesting within the JSON reader's depth limit (127). A file that cannot be read, is not JSON, or is not an object gives an error.",
 ["inputs"],"all JSON documents",
 "Tests use three small documents without mixed nesting.",
 [CLI+"circom.rs"],[("parse_inputs, flatten_value",CLI+"circom.rs")])
p("C12","CLI inputs become the right field elements under the right names",
 "For every JSON object of integers (of up to 64 bits), decimal strings (of any size) and arrays of these nested within the JSON reader's depth limit (127), the CLI's input reader gives one field element per leaf, named key[i][j]... after its position, whose value is the integer modulo the BN254 scalar order (a negative integer -n being order - n). Booleans, nulls, objects, fractional numbers and unparsable strings give an error, and so do two leaves that would get the same name; no leaf is lost, merged or renamed.",
 ["inputs"],"all JSON input documents, all 64-bit integers and decimal strings",
 "Tests read one document with small positive numbers and cannot reach this module's field type without arkworks.",
 [CLI+"commands.rs"],[("parse_circuit_inputs_with_keys, parse_circuit_inputs",CLI+"commands.rs")])
p("C13","JavaScript inputs are mapped to exactly the wires they name",
 "Mapping a JSON input object to wires sets, for every scalar leaf (string, number, bigint or boolean) at a path of non-empty keys and array indices, the wire that the symbol map gives for that path (object keys joined by a dot, array positions as [i], arrays nested to any depth), to the text of that leaf. Leaves whose path is not in the map set nothing, no other wire is set, and the order of the keys does not matter as long as no two leaves name one wire with different texts.",
 ["inputs"],"all input objects, all symbol maps",
 "The tests map flat arrays and scalars of two circuits.",
 [JS+"sym_parser.ts"],[("mapInputsToWires",JS+"sym_parser.ts")])
p("C14","JavaScript encapsulation hands over exactly the public input values",
 "For every assignment of integers to public signals of a circuit, JavaScript encapsulation passes to the core a witness file in the wtns version 2 layout with wire 0 set to 1 and wires 1, 2, ... set to the given values, each as 32 little-endian bytes equal to the value modulo the BN254 scalar order; it stops at the first wire without a value. The header states the true section sizes, the BN254 prime and the number of values.",
 ["inputs"],"all public input objects and symbol files, all integers",
 "The existing tests need the WASM build and use one circuit with small numbers.",
 [JS+"zkenc.ts",JS+"sym_parser.ts"],[("encap, serializeWitnessSimple, bigIntToLeBytes32",JS+"zkenc.ts")])
p("C15","The JavaScript combined ciphertext is self-consistent",
 "For every witness ciphertext, public input object and message, JavaScript encryption lays out flag, big-endian length and witness ciphertext, then (flag 1 only) big-endian length and JSON text of the public inputs, then the sealed message, with no byte missing or added. Decryption hands exactly that witness ciphertext to decapsulation and returns exactly that message, and public input extraction returns an object equal to the public inputs when they were included and an error when they were not; containers too short for the lengths they state are rejected by both, also when the bytes are a view into a larger buffer.",
 ["inputs"],"all messages, public inputs, flags and witness ciphertext lengths; all byte strings offered as containers, at any buffer offset",
 "The tests cover one circuit end to end and need the WASM build.",
 [JS+"zkenc.ts"],[("encrypt, decrypt, getPublicInput",JS+"zkenc.ts")])
p("C16","CLI combined ciphertexts follow the shared format in both directions",
 "For every circuit, public input file and message, the file the CLI encrypt command writes is flag, big-endian length and witness ciphertext, then (flag 1 only) big-endian length and the input file's bytes unchanged, then the sealed message, exactly; with public inputs left out the flag is 0. The CLI decrypt command accepts every file in that layout (also one made by the JavaScript library), decapsulates exactly the embedded witness ciphertext and writes exactly the sealed message; a file too short for the lengths it states is an error, never a crash.",
 ["inputs"],"all messages, input texts, flags and witness ciphertexts; all byte strings offered for decryption",
 "The command layer cannot be compiled without arkworks, and end-to-end tests use one circuit and one message.",
 [CLI+"commands.rs"],[("encrypt_command, decrypt_command",CLI+"commands.rs")])
p("C17","A failed CLI command leaves no output behind",
 "Whenever encap, decap, encrypt or decrypt of the CLI reports an error (missing or damaged inputs, an unsatisfying witness, a message that does not authenticate), it has written neither ciphertext, key nor plaintext to the output paths, except for an output whose own write failed or an output written before a later output's write failed. On success each output path holds exactly the bytes produced, and no other file is changed.",
 ["inputs","fault_sequences"],"all input files and all points at which a step of a command can fail",
 "Each test runs a command on good inputs; failures at every step are not enumerated.",
 [CLI+"commands.rs"],[("encap_command, decap_command, encrypt_command, decrypt_command",CLI+"commands.rs")])
p("C18","A .wtns file is loaded exactly or rejected",
 "For every well-formed wtns version 2 file with at least one value (unknown sections anywhere, header and data in either order, any element width), the CLI witness loader returns the prime, the count and exactly one entry per wire with its bytes, and converts 32-byte entries to field elements equal to the little-endian values, refusing values that are not below the field order. Any other byte string (wrong magic or version, missing section, cut short, data length that is not count times width) gives an error, never a crash or a partial witness.",
 ["inputs"],"all byte strings offered as witness files",
 "Module needs arkworks, so its tests are not run here; they sample one file.",
 [CLI+"witness.rs"],[("WitnessFile::from_file, to_field_elements",CLI+"witness.rs")])
p("C19","The WASM binding parses circuits and witnesses exactly or rejects them",
 "For every byte string, the WASM binding's circuit parser gives the same wire counts and constraints as stored in a well-formed R1CS version 1 file (any section order, unknown sections skipped) or an error, and its witness parser gives, for a well-formed wtns version 2 file with the header before the data and elements of 1 to 32 bytes, the stored values modulo the field order in wire order. Damaged circuits (cut short, sections past the end, undeclared wires) are errors. A witness that is cut short, has another magic or version, or a section that runs past its end is an error. Neither crashes, loops forever or reads outside the bytes it was given, whatever lengths the input claims.",
 ["inputs"],"all byte strings offered as circuit or witness",
 "Tests need the WASM build and use two valid files.",
 [JS+"lib.rs"],[("parse_r1cs, parse_linear_combination, parse_witness",JS+"lib.rs")])
p("C20","The constraint system built from a circuit is the circuit",
 "For every parsed circuit and every set of wire values, the constraint system that the CLI and the WASM binding hand to the core has wire 0 as the constant one, wires 1 up to the number of public outputs and inputs as instance variables in order, the remaining wires as witness variables in order, each with its given value, and exactly the file's constraints A*B=C in order with each coefficient (of up to 32 bytes) equal to its little-endian value modulo the field order. A wire without a value is reported as missing instead of being given some value.",
 ["inputs"],"all circuits (wire counts, constraints, coefficients) and all full or partial value maps",
 "The synthesizers cannot be compiled without arkworks; their tests use one circuit.",
 [CLI+"circuit.rs",JS+"lib.rs"],[("CircomCircuit::generate_constraints, bytes_to_fr",CLI+"circuit.rs"),("CircomCircuit::generate_constraints, build_lc, bytes_to_fr",JS+"lib.rs")])
p("C21","Decapsulation yields a key only for a satisfying, matching witness",
 "Decapsulation returns a key only if every wire has a value, the values satisfy every constraint of the circuit, and the circuit's public values (not its private ones) agree one by one with all public inputs recorded in the ciphertext; in every other case it returns an error. Decapsulating the same ciphertext twice with the same witness gives the same key.",
 ["inputs"],"all circuits, all (also unsatisfying, partial or mismatching) assignments, all ciphertexts",
 "Tests try one wrong witness on one circuit and need arkworks.",
 [CORE+"algorithm.rs"],[("decap",CORE+"algorithm.rs")])
p("C22","The encapsulation key encodes the circuit's QAP under fresh secrets",
 "Every encapsulation draws its five secrets from the caller's generator during that call, and the ciphertext it returns consists of the group encodings of alpha, beta and delta and, for every variable i, of r*u_i(x), r*v_i(x) and (r*beta*u_i(x)+r*alpha*v_i(x)+r*r*w_i(x))/delta, where u_i, v_i, w_i interpolate column i of the A, B and C matrices over an evaluation domain of at least the number of constraints plus instance variables, the constraint system being the one that the circuit's synthesis built (as far as it got without values). The recorded public inputs are exactly the circuit's instance values without the constant.",
 ["inputs","histories"],"all constraint systems as far as the circuit's synthesis builds them, all generator outputs with delta not zero",
 "Tests only check that decapsulation after encapsulation returns the same key on three circuits, which does not see most of the key.",
 [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs"],[("encap",CORE+"algorithm.rs"),("evaluate_qap_polynomials_at_x",CORE+"r1cs_to_qap.rs")])
p("C23","A valid witness recovers the encapsulated key",
 "For every circuit, every full satisfying assignment, and every ciphertext made by encapsulating with that assignment's public values (private wires unassigned), decapsulation with the assignment returns exactly the key that encapsulation returned.",
 ["inputs"],"all circuits, satisfying assignments and generator outputs",
 "Tests sample three circuits and need arkworks.",
 [CORE+"algorithm.rs"],[("encap",CORE+"algorithm.rs"),("decap",CORE+"algorithm.rs")])
p("C24","Nobody without a witness can learn the encapsulated key",
 "Given only the circuit and a ciphertext, no efficient procedure that does not know a satisfying assignment computes the key that encapsulation returned.",
 ["inputs","programs"],"all efficient procedures, all circuits whose witnesses are hard to find",
 "No test can range over procedures; secrecy is a statement about all of them.",
 [CORE+"algorithm.rs"],[("encap",CORE+"algorithm.rs")])
p("C25","Ciphertext verification accepts exactly the expected public inputs",
 "Verifying a ciphertext against a list of expected public inputs answers true exactly when the ciphertext records the same number of public inputs and every one of them equals the expected one at its position, and false otherwise.",
 ["inputs"],"all ciphertexts and all expected lists",
 "Tests need arkworks and compare one equal and one different list.",
 [CORE+"algorithm.rs"],[("verify_ciphertext",CORE+"algorithm.rs")])
p("C26","Computed witnesses are written in the exact wtns layout",
 "For every Circom circuit module and input object, the witness calculator feeds each input signal its flattened values in order reduced modulo the prime, refuses inputs with too many or too few values for a signal or in total, turns the module's own sanity checks on when the TypeScript calculator or the call asks for them and leaves them off otherwise, and emits a wtns version 2 file whose header carries the module's field width, prime and witness count and whose data are the module's witness elements in order, little-endian. Converting numbers to and from 32-bit limbs loses nothing for any value below the field width.",
 ["inputs"],"all modules (any limb count and witness size) and all input objects",
 "Tests compute witnesses of one circuit and compare lengths.",
 [JS+"witness_calculator.ts",JS+"witness.ts"],[("WitnessCalculator._doCalculateWitness, calculateWTNSBin, toArray32, fromArray32, flatArray, normalize",JS+"witness_calculator.ts")])
p("C27","Every public signal given in the CLI inputs is bound into the ciphertext",
 "For every circuit, symbol file and input file, the CLI encap and encrypt commands give the core exactly these wire values: 1 for wire 0, and for every public signal (public outputs and public inputs alike) that the input file names, the value given there, on the wire the symbol file assigns to it. Inputs that name private signals or nothing bind no wire, and the order of keys in the file does not matter.",
 ["inputs"],"all circuits with any number of public outputs and inputs, all symbol files, all input files",
 "The command layer needs arkworks; the end-to-end circuits used have no public outputs.",
 [CLI+"commands.rs",CLI+"sym_parser.rs"],[("encap_command, encrypt_command",CLI+"commands.rs"),("get_input_signals",CLI+"sym_parser.rs")])
p("C28","The WASM entry points hand the core exactly what they were given",
 "For every circuit file the WASM binding accepts and every well-formed wtns file, wasm_encap asks the core to encapsulate for that circuit with exactly the stored values of wires 0 up to the number of public signals (as far as the file has them; private wires get none), with a generator seeded in that call from 32 bytes of the system's randomness, and returns the compressed bytes of the core's ciphertext and the core's key. wasm_decap refuses a witness whose number of values is not the circuit's number of wires and a ciphertext that does not decode, and otherwise returns exactly what the core's decapsulation gives for the circuit with every stored value. A circuit that does not parse is refused by both, and neither crashes.",
 ["inputs"],"all circuit, witness and ciphertext byte strings",
 "The binding needs arkworks and a WASM build; its tests run one circuit.",
 [JS+"lib.rs"],[("wasm_encap, wasm_decap",JS+"lib.rs")])
p("C29","The command line puts every option's value in the role its name says",
 "For every command line that names one of the subcommands encap, decap, encrypt and decrypt and gives its options, in any order, the program runs that command once, with the value given for each long option name (--circuit, --sym, --input, --witness, --message, --ciphertext, --key, --output) in that role: the file named by --circuit is the circuit, the one named by --key receives the key, and so on. encrypt includes the public inputs in its output unless --no-public-input is given. Within a subcommand no two options share a long or a short name, and the documented short names mean what the documentation uses them for: -c circuit, -i input, -k key for encap, -c circuit, -w witness, -k key for decap. Success (exit status 0) means that the outputs are written; a failure ends with a non-zero exit status and, unless it was the writing that failed, without any output file.",
 ["inputs"],"all command lines and the contents of the files they name",
 "The program needs clap and arkworks; no test runs it.",
 [CLI+"main.rs",CLI+"commands.rs"],[("main, Commands",CLI+"main.rs")])
p("C30","The compiled core is loaded once, before it is used, however calls overlap",
 "However many calls of the package's encap, decap, encrypt and decrypt overlap, and in whatever order they are resumed after each wait, wasm_encap and wasm_decap are only called after a call of the generated module's init() has completed without an error. init() is started by the first call that needs it and never again while that attempt runs or once it has succeeded; calls that arrive meanwhile wait for it. When it fails, the calls that waited for it reject and the core is not called. Otherwise each call gives exactly what it would give if it ran alone.",
 ["schedules","inputs"],"all numbers and kinds of overlapping calls, all orders of resumption, all durations and outcomes of init()",
 "Tests need the WASM build, run one call after the other and load the module once.",
 [JS+"zkenc.ts"],[("ensureWasmInit, encap, decap",JS+"zkenc.ts")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
