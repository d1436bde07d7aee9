//! Hand-assembled WASM modules with the circom witness-generator interface: an "echo circuit" whose
//! witness is the constant 1 followed by its input signals, whatever the field width.
fn leb(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn sleb(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn section(o: &mut Vec<u8>, id: u8, body: Vec<u8>) {
    o.push(id);
    leb(o, body.len() as u64);
    o.extend(body);
}
fn vecs(items: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    leb(&mut o, items.len() as u64);
    for i in items {
        o.extend(i);
    }
    o
}
fn name(s: &str) -> Vec<u8> {
    let mut o = vec![];
    leb(&mut o, s.len() as u64);
    o.extend(s.as_bytes());
    o
}
fn c(v: i64) -> Vec<u8> {
    let mut o = vec![0x41];
    sleb(&mut o, v);
    o
}
fn get(i: u8) -> Vec<u8> {
    vec![0x20, i]
}
const ADD: u8 = 0x6a;
const MUL: u8 = 0x6c;
const LOAD: [u8; 3] = [0x28, 2, 0];
const STORE: [u8; 3] = [0x36, 2, 0];
const MEMCPY: [u8; 4] = [0xfc, 0x0a, 0, 0];

/// FNV-1a, 64 bit
pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

const SHARED: i64 = 0;
const PRIME: i64 = 256;
const TABLE: i64 = 1024;

/// `inputs`: (signal name, length); `prime`: little-endian words
pub fn module(prime: &[u32], inputs: &[(String, u32)], version: i64) -> Vec<u8> {
    let n32 = prime.len() as i64;
    let sig = (TABLE + inputs.len() as i64 * 16 + 63) / 64 * 64;
    let total: i64 = 1 + inputs.iter().map(|x| x.1 as i64).sum::<i64>();
    let mut data = vec![0u8; (sig + n32 * 4) as usize];
    for (i, w) in prime.iter().enumerate() {
        data[PRIME as usize + 4 * i..][..4].copy_from_slice(&w.to_le_bytes());
    }
    let mut base = 1u32;
    for (i, (n, len)) in inputs.iter().enumerate() {
        let h = fnv(n);
        let row = [(h >> 32) as u32, h as u32, base, *len];
        for (j, w) in row.iter().enumerate() {
            data[TABLE as usize + 16 * i + 4 * j..][..4].copy_from_slice(&w.to_le_bytes());
        }
        base += len;
    }
    data[sig as usize] = 1;
    let pages = (sig + total * n32 * 4) / 65536 + 2;

    // types: 0 ()->i32, 1 ()->(), 2 (i32)->i32, 3 (i32,i32)->(), 4 (i32)->(), 5 (i32,i32,i32)->()
    let types = vecs(&[
        vec![0x60, 0, 1, 0x7f],
        vec![0x60, 0, 0],
        vec![0x60, 1, 0x7f, 1, 0x7f],
        vec![0x60, 2, 0x7f, 0x7f, 0],
        vec![0x60, 1, 0x7f, 0],
        vec![0x60, 3, 0x7f, 0x7f, 0x7f, 0],
    ]);
    let cat = |v: Vec<Vec<u8>>| v.concat();
    let addr_of_sig = |idx: Vec<u8>| cat(vec![idx, c(n32 * 4), vec![MUL], c(sig), vec![ADD]]);
    let word = |i: u8| cat(vec![get(i), c(4), vec![MUL]]);
    // setInputSignal(hm, hl, pos): local 3 = table row address
    let set = cat(vec![
        vec![0x03, 0x40], // loop
        get(3),
        c(inputs.len() as i64 * 16),
        vec![0x4e], // i32.ge_s
        vec![0x04, 0x40, 0x00, 0x0b], // if unreachable end
        // not this row?
        cat(vec![get(3), c(TABLE), vec![ADD], LOAD.to_vec(), get(0), vec![0x47]]),
        cat(vec![get(3), c(TABLE + 4), vec![ADD], LOAD.to_vec(), get(1), vec![0x47]]),
        vec![0x72], // or
        vec![0x04, 0x40],
        cat(vec![get(3), c(16), vec![ADD], vec![0x21, 3], vec![0x0c, 1]]), // next row, br loop
        vec![0x0b],
        vec![0x0b],
        // pos < len, else trap
        cat(vec![get(2), get(3), c(TABLE + 12), vec![ADD], LOAD.to_vec(), vec![0x4f], vec![0x04, 0x40, 0x00, 0x0b]]),
        addr_of_sig(cat(vec![get(3), c(TABLE + 8), vec![ADD], LOAD.to_vec(), get(2), vec![ADD]])),
        c(SHARED),
        c(n32 * 4),
        MEMCPY.to_vec(),
    ]);
    let funcs: Vec<(&str, u8, u8, Vec<u8>)> = vec![
        ("getVersion", 0, 0, c(version)),
        ("getFieldNumLen32", 0, 0, c(n32)),
        ("getRawPrime", 1, 0, cat(vec![c(SHARED), c(PRIME), c(n32 * 4), MEMCPY.to_vec()])),
        ("readSharedRWMemory", 2, 0, cat(vec![word(0), LOAD.to_vec()])),
        ("writeSharedRWMemory", 3, 0, cat(vec![word(0), get(1), STORE.to_vec()])),
        ("init", 4, 0, vec![]),
        ("setInputSignal", 5, 1, set),
        ("getWitnessSize", 0, 0, c(total)),
        ("getWitness", 4, 0, cat(vec![c(SHARED), addr_of_sig(get(0)), c(n32 * 4), MEMCPY.to_vec()])),
    ];
    let mut o = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    section(&mut o, 1, types);
    section(&mut o, 3, vecs(&funcs.iter().map(|f| vec![f.1]).collect::<Vec<_>>()));
    let mut mem = vec![1, 0];
    leb(&mut mem, pages as u64);
    section(&mut o, 5, mem);
    section(
        &mut o,
        7,
        vecs(&funcs.iter().enumerate().map(|(i, f)| [name(f.0), vec![0, i as u8]].concat()).collect::<Vec<_>>()),
    );
    let bodies: Vec<Vec<u8>> = funcs
        .iter()
        .map(|f| {
            let mut b = if f.2 > 0 { vec![1, f.2, 0x7f] } else { vec![0] };
            b.extend(&f.3);
            b.push(0x0b);
            let mut r = vec![];
            leb(&mut r, b.len() as u64);
            r.extend(b);
            r
        })
        .collect();
    section(&mut o, 10, vecs(&bodies));
    let mut d = vec![1, 0];
    d.extend(c(0));
    d.push(0x0b);
    leb(&mut d, data.len() as u64);
    d.extend(data);
    section(&mut o, 11, d);
    o
}

/// what a generated circuit does besides handing its inputs back
#[derive(Clone, Default, Debug)]
pub struct Rules {
    /// the circuit says what it takes (getInputSize, getInputSignalSize)
    pub sizes: bool,
    /// assertions: the low word of the i-th input element must not be this
    pub forbid: Vec<(u32, u32)>,
    /// also trap when an assertion fails, instead of only reporting it
    pub trap: bool,
    /// the code reported by a failing assertion
    pub code: i64,
    /// gives 0 (circom's way) or -1 (snarkjs's) for the size of an unknown name
    pub unknown: i64,
}
const LEFT: i64 = 512;

/// The generated runtime of circom 2, rule for rule: it counts the inputs that are still to come, reports what is
/// wrong with one through `exceptionHandler` and goes on, and runs the circuit when the last one has come.
/// The witness is the constant 1, the inputs, and the inputs again as "computed" signals, which keep the values of
/// an earlier run until the circuit runs.
pub fn runtime(prime: &[u32], inputs: &[(String, u32)], r: &Rules) -> Vec<u8> {
    let n32 = prime.len() as i64;
    let rows = inputs.len() as i64;
    let sig = (TABLE + rows * 16 + 63) / 64 * 64;
    let n: i64 = inputs.iter().map(|x| x.1 as i64).sum();
    let total = 1 + 2 * n;
    let mut data = vec![0u8; (sig + n32 * 4) as usize];
    for (i, w) in prime.iter().enumerate() {
        data[PRIME as usize + 4 * i..][..4].copy_from_slice(&w.to_le_bytes());
    }
    let mut base = 1u32;
    for (i, (nm, len)) in inputs.iter().enumerate() {
        let h = fnv(nm);
        for (j, w) in [(h >> 32) as u32, h as u32, base, *len].iter().enumerate() {
            data[TABLE as usize + 16 * i + 4 * j..][..4].copy_from_slice(&w.to_le_bytes());
        }
        base += len;
    }
    data[sig as usize] = 1;
    let pages = (sig + total * n32 * 4) / 65536 + 2;
    let types = vecs(&[
        vec![0x60, 0, 1, 0x7f],
        vec![0x60, 0, 0],
        vec![0x60, 1, 0x7f, 1, 0x7f],
        vec![0x60, 2, 0x7f, 0x7f, 0],
        vec![0x60, 1, 0x7f, 0],
        vec![0x60, 3, 0x7f, 0x7f, 0x7f, 0],
        vec![0x60, 2, 0x7f, 0x7f, 1, 0x7f],
    ]);
    let cat = |v: Vec<Vec<u8>>| v.concat();
    let addr_of_sig = |idx: Vec<u8>| cat(vec![idx, c(n32 * 4), vec![MUL], c(sig), vec![ADD]]);
    let word = |i: u8| cat(vec![get(i), c(4), vec![MUL]]);
    let left = || cat(vec![c(LEFT), LOAD.to_vec()]);
    let raise = |code: i64| cat(vec![c(code), vec![0x10, 0]]);
    const IF: [u8; 2] = [0x04, 0x40];
    const END: u8 = 0x0b;
    const RETURN: u8 = 0x0f;
    // finds the row of (hm, hl) in local `row` (an offset), runs `missing` when there is none
    let find = |row: u8, missing: Vec<u8>| {
        cat(vec![
            c(0),
            vec![0x21, row],
            vec![0x03, 0x40],
            cat(vec![get(row), c(rows * 16), vec![0x4e], IF.to_vec(), missing, vec![END]]),
            cat(vec![get(row), c(TABLE), vec![ADD], LOAD.to_vec(), get(0), vec![0x47]]),
            cat(vec![get(row), c(TABLE + 4), vec![ADD], LOAD.to_vec(), get(1), vec![0x47]]),
            vec![0x72],
            IF.to_vec(),
            cat(vec![get(row), c(16), vec![ADD], vec![0x21, row], vec![0x0c, 1]]),
            vec![END],
            vec![END],
        ])
    };
    let run: Vec<u8> = r
        .forbid
        .iter()
        .flat_map(|(i, w)| {
            let cond = cat(vec![c(sig + (1 + *i as i64) * n32 * 4), LOAD.to_vec(), c(*w as i32 as i64), vec![0x46]]);
            let body = cat(vec![raise(r.code), if r.trap { vec![0x00] } else { vec![RETURN] }]);
            cat(vec![cond, IF.to_vec(), body, vec![END]])
        })
        .chain(cat(vec![c(sig + (1 + n) * n32 * 4), c(sig + n32 * 4), c(n * n32 * 4), MEMCPY.to_vec()]))
        .collect();
    let set = cat(vec![
        cat(vec![left(), vec![0x45], IF.to_vec(), raise(2), vec![RETURN, END]]),
        find(3, cat(vec![raise(1), vec![RETURN]])),
        cat(vec![get(2), get(3), c(TABLE + 12), vec![ADD], LOAD.to_vec(), vec![0x4f], IF.to_vec(), raise(6), vec![RETURN, END]]),
        addr_of_sig(cat(vec![get(3), c(TABLE + 8), vec![ADD], LOAD.to_vec(), get(2), vec![ADD]])),
        c(SHARED),
        c(n32 * 4),
        MEMCPY.to_vec(),
        cat(vec![c(LEFT), left(), c(1), vec![0x6b], STORE.to_vec()]),
        cat(vec![left(), vec![0x45], IF.to_vec(), run.clone(), vec![END]]),
    ]);
    let init = cat(vec![c(LEFT), c(n), STORE.to_vec(), if n == 0 { run } else { vec![] }]);
    let size = cat(vec![find(2, cat(vec![c(r.unknown), vec![RETURN]])), get(2), c(TABLE + 12), vec![ADD], LOAD.to_vec()]);
    let mut funcs: Vec<(&str, u8, u8, Vec<u8>)> = vec![
        ("getVersion", 0, 0, c(2)),
        ("getFieldNumLen32", 0, 0, c(n32)),
        ("getRawPrime", 1, 0, cat(vec![c(SHARED), c(PRIME), c(n32 * 4), MEMCPY.to_vec()])),
        ("readSharedRWMemory", 2, 0, cat(vec![word(0), LOAD.to_vec()])),
        ("writeSharedRWMemory", 3, 0, cat(vec![word(0), get(1), STORE.to_vec()])),
        ("init", 4, 0, init),
        ("setInputSignal", 5, 1, set),
        ("getWitnessSize", 0, 0, c(total)),
        ("getWitness", 4, 0, cat(vec![c(SHARED), addr_of_sig(get(0)), c(n32 * 4), MEMCPY.to_vec()])),
    ];
    if r.sizes {
        funcs.push(("getInputSize", 0, 0, c(n)));
        funcs.push(("getInputSignalSize", 6, 1, size));
    }
    let mut o = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    section(&mut o, 1, types);
    section(&mut o, 2, vecs(&[[name("runtime"), name("exceptionHandler"), vec![0, 4]].concat()]));
    section(&mut o, 3, vecs(&funcs.iter().map(|f| vec![f.1]).collect::<Vec<_>>()));
    let mut mem = vec![1, 0];
    leb(&mut mem, pages as u64);
    section(&mut o, 5, mem);
    section(
        &mut o,
        7,
        vecs(&funcs.iter().enumerate().map(|(i, f)| [name(f.0), vec![0, i as u8 + 1]].concat()).collect::<Vec<_>>()),
    );
    let bodies: Vec<Vec<u8>> = funcs
        .iter()
        .map(|f| {
            let mut b = if f.2 > 0 { vec![1, f.2, 0x7f] } else { vec![0] };
            b.extend(&f.3);
            b.push(0x0b);
            let mut r = vec![];
            leb(&mut r, b.len() as u64);
            r.extend(b);
            r
        })
        .collect();
    section(&mut o, 10, vecs(&bodies));
    let mut d = vec![1, 0];
    d.extend(c(0));
    d.push(0x0b);
    leb(&mut d, data.len() as u64);
    d.extend(data);
    section(&mut o, 11, d);
    o
}
