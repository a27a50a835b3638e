import importlib.util, os
_d = os.path.dirname(os.path.abspath(__file__))
def _m(n):
    s = importlib.util.spec_from_file_location("s", _d + "/" + n); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
mods = _m("a_rust.py").mods; H = _m("b_ts.py").H
J = 'packages/zkenc-js/src/'; C = 'packages/zkenc-cli/src/'
FAKE = '''const n32 = 2, prime = 1000003n, log = []; let mem = [0, 0];
const limbs = (v) => [Number(v & 0xffffffffn), Number(v >> 32n)]; let size = 1;
const exports = { getFieldNumLen32: () => n32, getRawPrime: () => { mem = limbs(prime); }, readSharedRWMemory: (j) => mem[j], writeSharedRWMemory: (j, v) => { mem[j] = v >>> 0; }, getWitnessSize: () => 1, getVersion: () => 2, init() {}, getInputSignalSize: () => size, getInputSize: () => size,
 setInputSignal: (a, b, i) => log.push(BigInt(mem[0]) + (BigInt(mem[1]) << 32n)), getWitness: () => { mem = [1, 0]; } };
WebAssembly.compile = async () => ({}); WebAssembly.instantiate = async () => ({ exports });
const w = await (W.default)(new Uint8Array(1));
'''
SEEDS = [
 dict(id='C26-d', property='C26', kind='ts', needs='an input nested in six or more levels of arrays',
  breaks='the module gets a wrong value, or the witness calculation fails, for arrays that are nested deeper than that',
  edits=[(J+'witness_calculator.ts', '    if (Array.isArray(a)) {\n      for (let i = 0; i < a.length; i++) {\n        fillArray(res, a[i]);\n      }\n    } else {', '    if (Array.isArray(a)) {\n      for (const v of a.flat(4)) {\n        res.push(BigInt(v));\n      }\n    } else {')],
  demo=H + FAKE + '''size = 3; await w.calculateWTNSBin({ a: [[[[[[5, 6]]]]], 7] }); eq(log, [5n, 6n, 7n], "inputs");'''),
 dict(id='C13-d', property='C13', kind='ts', needs='an object member or array position whose own name is also that of a signal at the top',
  breaks='its value is put on the wire of the other signal',
  edits=[(J+'sym_parser.ts', '      const wireId = wireMap.get(fullKey);\n', '      const wireId = wireMap.get(fullKey) ?? wireMap.get(key);\n')],
  demo=H + '''const m = S.mapInputsToWires({ p: { x: 4, y: 5 } }, new Map([["x", 1], ["p.y", 2]])); eq([...m].sort(), [[2, "5"]], "wires");'''),
 dict(id='C09-e', property='C09', kind='rust', needs='a line that begins with a number sign',
  breaks='the line is taken for a comment where it must be read as four fields',
  edits=[(C+'sym_parser.rs', '        if line.is_empty() {', "        if line.is_empty() || line.starts_with('#') {")],
  demo=mods("sym_parser") + '''fn main() {
    let m = sym_parser::parse_sym_file("#1,7,0,main.a\\n2,2,0,main.b\\n").unwrap();
    assert_eq!(m.len(), 2); assert_eq!(m["main.a"], 7); assert_eq!(m["main.b"], 2);
}'''),
 dict(id='C11-c', property='C11', kind='rust', needs='an array that mixes numbers with nested arrays',
  breaks='the elements of the nested arrays come after the plain ones',
  edits=[(C+'circom.rs', '        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),', '        Value::Array(arr) => {\n            let (nested, plain): (Vec<&Value>, Vec<&Value>) = arr.iter().partition(|v| v.is_array());\n            plain.into_iter().chain(nested).flat_map(flatten_value).collect()\n        }')],
  demo=mods("circom") + '''fn main() {
    std::fs::write("i.json", r#"{"a":[[1,2],3,[[4],5]]}"#).unwrap();
    let m = circom::parse_inputs("i.json").unwrap(); assert_eq!(m["a"], vec!["1", "2", "3", "4", "5"]);
}'''),
]
