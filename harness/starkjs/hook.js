// Loaded before a starkjs script: stand-ins for the packages it needs, and a record of what it does.
// $J_SPEC names a JSON file {rows, input, spoil, cached, dir, out}.
const Module = require("module");
const fs = require("fs");
const path = require("path");
const pilref = require("./pil.js");
const { P, pow } = pilref;

const spec = JSON.parse(fs.readFileSync(process.env.J_SPEC, "utf8"));
const real = { readFile: fs.promises.readFile, writeFile: fs.promises.writeFile, exists: fs.existsSync, writeSync: fs.writeFileSync };
const log = { compiled: [], generated: 0, executed: 0, returned: null, saved: {}, written: {}, verified: null, exit: null, wrong: null, answers: {} };

const mod = (x) => ((BigInt(x) % P) + P) % P;
class Field {
  constructor() {
    this.p = P;
    this.zero = 0n;
    this.one = 1n;
    this.nqr = 7n;
    this.shift = 7n;
    this.k = 12275445934081160404n;
    // the roots pil-stark hands out
    this.w = Array.from({ length: 33 }, (_, i) => pow(1753635133440165772n, 1n << BigInt(32 - i)));
  }
  e(x) { return mod(x); }
  add(a, b) { return mod(a + b); }
  sub(a, b) { return mod(a - b); }
  mul(a, b) { return mod(a * b); }
  square(a) { return mod(a * a); }
  neg(a) { return mod(-a); }
  exp(a, e) { return pow(a, BigInt(e)); }
  eq(a, b) { return a === b; }
}
const FGL = new Field();

let pil = null;
function pols(kind) {
  const all = {};
  const cols = new Map();
  for (const o of pil.order.filter((o) => o.kind === kind)) {
    all[o.ns] ??= {};
    const one = (name) => {
      const c = Object.preventExtensions(new Array(pil.rows).fill(0n)); // rows past the end do not exist
      cols.set(name, c);
      return c;
    };
    all[o.ns][o.n] = o.len === null ? one(`${o.ns}.${o.n}`) : Array.from({ length: o.len }, (_, i) => one(`${o.ns}.${o.n}[${i}]`));
  }
  Object.defineProperty(all, "cols", { value: cols });
  Object.defineProperty(all, "saveToFile", {
    value: (f) => {
      log.saved[f] = { kind, cols: Object.fromEntries([...cols].map(([n, c]) => [n, c.map(String)])) };
    },
  });
  return all;
}
const both = (a, b) => new Map([...a.cols, ...b.cols]);
const document = (pil) => ({ marker: "compiled", rows: pil.rows, columns: pil.order.length });
const pilcom = {
  getKs: (F, n) => pilref.ks(n),
  async compile(F, file) {
    log.compiled.push(file);
    pil = pilref.compile(file, spec.rows);
    return document(pil);
  },
  newConstantPolsArray(p) {
    if (!pil) {
      // a cached program was read instead
      log.cached = p;
      pil = pilref.compile(spec.program, spec.rows);
    }
    return pols("constant");
  },
  newCommitPolsArray: () => pols("commit"),
  async verifyPil(F, p, cm, ct) {
    const wrong = pilref.check(pil, both(cm, ct));
    log.verified = wrong;
    log.document = p;
    return wrong;
  },
};
const chain = (values) => {
  const y = {};
  const alias = [];
  for (const m of ["version", "usage", "demand", "option", "describe"]) y[m] = () => y;
  y.alias = (a, b) => (alias.push([a, b]), y);
  Object.defineProperty(y, "argv", {
    get() {
      for (const [a, b] of alias) {
        if (a in values) values[b] = values[a];
        else if (b in values) values[a] = values[b];
      }
      return values;
    },
  });
  return y;
};
const assert = (c, m) => {
  if (!c) throw new Error(m || "assertion failed");
};
assert.equal = (a, b, m) => assert(a == b, m);
assert.strictEqual = (a, b, m) => assert(a === b, m);
assert.isTrue = (a, m) => assert(a === true, m);
const standins = {
  "pil-stark": { FGL },
  pilcom,
  chai: { assert, expect: null },
  ejs: {},
  ffjavascript: { F1Field: Field },
  "json-bigint": () => JSON,
  yargs: chain(spec.argv),
};
const load = Module._load;
Module._load = function (request, parent, ...rest) {
  if (Object.hasOwn(standins, request)) return standins[request];
  if (request.includes("node_modules/pil-stark")) return {};
  const m = load.call(this, request, parent, ...rest);
  if (m && m.pil_verifier && !m.pil_verifier.watched) watch(m);
  return m;
};
function input(x) {
  return Array.isArray(x) ? x.map(input) : typeof x === "string" ? BigInt(x) : x;
}
function watch(m) {
  const generate = m.pil_verifier.generate;
  m.pil_verifier.watched = true;
  m.pil_verifier.generate = function (ws, file, config, cache, builder, struct, addr, given) {
    log.generated += 1;
    log.pil = file;
    spec.program = file;
    log.cache = cache;
    const execute = builder.execute;
    builder.execute = async function (cm, given) {
      log.executed += 1;
      const r = await execute.call(this, cm, given);
      log.returned = Array.isArray(r) ? r.map(String) : r === undefined ? null : String(r);
      if (spec.spoil) {
        const c = cm.cols.get(spec.spoil.column);
        const at = spec.spoil.row % c.length;
        c[at] = mod(c[at] + BigInt(spec.spoil.by));
      }
      return r;
    };
    log.rows = spec.rows;
    if (spec.logs) log.answers.log2 = spec.logs.map((x) => Number(m.utils.log2(x)));
    return generate.call(this, ws, file, config, cache, builder, struct, addr, spec.input === null ? given : input(spec.input));
  };
}
// files of the script's own live in the scratch directory
const inside = (f) => (typeof f === "string" && !f.startsWith("/repo/") && !f.startsWith(__dirname) ? path.join(spec.dir, f.replaceAll("/", "_")) : f);
fs.existsSync = (f) => real.exists(inside(f));
fs.promises.readFile = (f, ...a) => real.readFile.call(fs.promises, inside(f), ...a);
fs.promises.writeFile = (f, d, ...a) => {
  log.written[f] = String(d);
  return real.writeFile.call(fs.promises, inside(f), d, ...a);
};
process.on("exit", (code) => {
  log.exit = code;
  if (pil) {
    const cols = new Map();
    for (const s of Object.values(log.saved)) for (const [n, c] of Object.entries(s.cols)) cols.set(n, c.map(BigInt));
    try {
      log.wrong = pilref.check(pil, cols);
    } catch (e) {
      log.wrong = [String(e)];
    }
    log.total = pil.rows;
    const c = pil.ids.find((i) => i.kind === "connect");
    if (c && log.wrong.length === 0) log.connected = pilref.connections(pil, cols, c);
  }
  real.writeSync(spec.out, JSON.stringify(log));
});
