// A reader of the PIL the starkjs programs are written in, and an evaluator over whole traces.
const fs = require("fs");
const path = require("path");

const P = 0xFFFFFFFF00000001n;
const mod = (x) => ((x % P) + P) % P;
function pow(b, e) {
  let r = 1n;
  for (b = mod(b); e > 0n; e >>= 1n, b = (b * b) % P) if (e & 1n) r = (r * b) % P;
  return r;
}

function tokens(text) {
  const re = /\s+|\/\/[^\n]*|\/\*[\s\S]*?\*\/|(0x[0-9a-fA-F]+|\d+|%?[A-Za-z_][A-Za-z0-9_]*|"[^"]*"|\*\*|[-+*()[\]{}=;,:'.])/gy;
  const out = [];
  while (re.lastIndex < text.length) {
    const at = re.lastIndex;
    const m = re.exec(text);
    if (!m) throw new Error(`PIL: cannot read ${JSON.stringify(text.slice(at, at + 20))}`);
    if (m[1]) out.push(m[1]);
  }
  return out;
}

// rows: the number of rows to compile for, in place of what the file says
function compile(file, rows) {
  const pil = { rows: null, consts: new Map(), pols: new Map(), order: [], publics: new Map(), ids: [] };
  let ns = null;
  const number = (t) => BigInt(t);
  function read(file) {
    const ts = tokens(fs.readFileSync(file, "utf8"));
    let k = 0;
    const peek = (d = 0) => ts[k + d];
    const eat = (t) => (peek() === t ? (k++, true) : false);
    const need = (t) => {
      if (!eat(t)) throw new Error(`PIL: ${t} expected, found ${peek()}`);
    };
    const full = (n) => (pil.pols.has(`${ns}.${n}`) ? `${ns}.${n}` : n);
    function atom() {
      if (eat("(")) {
        const e = sum();
        need(")");
        return e;
      }
      if (eat("-")) return { op: "-", a: { op: "num", v: 0n }, b: atom() };
      if (eat(":")) return { op: "public", name: ts[k++] };
      const t = ts[k++];
      if (/^\d/.test(t)) return { op: "num", v: number(t) };
      if (pil.consts.has(t)) return { op: "num", v: pil.consts.get(t) };
      let name = t;
      if (eat(".")) name = `${t}.${ts[k++]}`;
      else name = `${ns}.${t}`;
      if (eat("[")) {
        const i = value(sum());
        need("]");
        name += `[${i}]`;
      }
      const next = eat("'");
      return { op: "pol", name, next };
    }
    function power() {
      const a = atom();
      return eat("**") ? { op: "num", v: value(a) ** value(power()) } : a;
    }
    function product() {
      let a = power();
      while (eat("*")) a = { op: "*", a, b: power() };
      return a;
    }
    function sum() {
      let a = product();
      for (;;) {
        if (eat("+")) a = { op: "+", a, b: product() };
        else if (eat("-")) a = { op: "-", a, b: product() };
        else return a;
      }
    }
    function value(e) {
      if (e.op === "num") return e.v;
      const [a, b] = [value(e.a), value(e.b)];
      return e.op === "+" ? a + b : e.op === "-" ? a - b : a * b;
    }
    function list() {
      need("{");
      const l = [];
      do l.push(sum());
      while (eat(","));
      need("}");
      return l;
    }
    function side() {
      let sel = null;
      if (peek() !== "{") {
        const e = sum();
        if (peek() !== "{") return { sel: null, l: [e] };
        sel = e;
      }
      return { sel, l: list() };
    }
    while (k < ts.length) {
      if (eat("include")) {
        read(path.join(path.dirname(file), ts[k++].slice(1, -1)));
        if (peek() !== undefined) need(";");
      } else if (eat("constant")) {
        const n = ts[k++];
        need("=");
        pil.consts.set(n, value(sum()));
        if (n === "%N" && rows) pil.consts.set(n, BigInt(rows));
        need(";");
      } else if (eat("let")) {
        const n = ts[k++];
        need(":");
        need("int");
        need("=");
        pil.consts.set(n, value(sum()));
        if (n === "N" && rows) pil.consts.set(n, BigInt(rows));
        need(";");
      } else if (eat("namespace")) {
        ns = ts[k++];
        need("(");
        pil.rows = Number(value(sum()));
        need(")");
        need(";");
      } else if (peek() === "pol" && (peek(1) === "constant" || peek(1) === "commit")) {
        const kind = peek(1);
        k += 2;
        do {
          const n = ts[k++];
          let len = null;
          if (eat("[")) {
            len = Number(value(sum()));
            need("]");
          }
          for (let i = 0; i < (len ?? 1); i++) {
            const name = `${ns}.${n}` + (len === null ? "" : `[${i}]`);
            pil.pols.set(name, { kind });
          }
          pil.order.push({ kind, ns, n, len });
        } while (eat(","));
        need(";");
      } else if (eat("pol")) {
        const n = ts[k++];
        need("=");
        pil.pols.set(`${ns}.${n}`, { kind: "im", e: sum() });
        need(";");
      } else if (eat("public")) {
        const n = ts[k++];
        need("=");
        const pol = `${ns}.${ts[k++]}`;
        need("(");
        pil.publics.set(n, { pol, row: Number(value(sum())) });
        need(")");
        need(";");
      } else {
        const at = k;
        const a = side();
        const op = ts[k++];
        if (op === "=") {
          const b = sum();
          pil.ids.push({ kind: "=", e: { op: "-", a: a.l[0], b }, text: ts.slice(at, k).join(" ") });
        } else if (op === "in" || op === "is" || op === "connect") {
          pil.ids.push({ kind: op, a, b: side(), text: ts.slice(at, k).join(" ") });
        } else throw new Error(`PIL: ${op} where an identity is expected`);
        need(";");
      }
    }
  }
  read(file);
  return pil;
}

const ks = (n) => Array.from({ length: n }, (_, i) => pow(12275445934081160404n, BigInt(i + 1)));

// what is wrong with a trace; cols: name -> array of BigInt
function check(pil, cols) {
  const N = pil.rows;
  const wrong = [];
  for (const [n, p] of pil.pols) {
    if (p.kind === "im") continue;
    const c = cols.get(n);
    if (!c || c.length !== N) return [`${n} has ${c && c.length} rows of ${N}`];
    for (let i = 0; i < N; i++) {
      if (typeof c[i] !== "bigint" || c[i] < 0n || c[i] >= P) return [`${n}[${i}] = ${c[i]} is no element`];
    }
  }
  const memo = new Map();
  const rot = (v) => v.slice(1).concat(v[0]);
  function pol(n) {
    const p = pil.pols.get(n);
    if (!p) throw new Error(`PIL: unknown ${n}`);
    if (p.kind !== "im") return cols.get(n);
    if (!memo.has(n)) memo.set(n, ev(p.e));
    return memo.get(n);
  }
  function ev(e) {
    if (e.op === "num") return new Array(N).fill(mod(e.v));
    if (e.op === "public") {
      const p = pil.publics.get(e.name);
      return new Array(N).fill(pol(p.pol)[p.row]);
    }
    if (e.op === "pol") return e.next ? rot(pol(e.name)) : pol(e.name);
    const [a, b] = [ev(e.a), ev(e.b)];
    return a.map((x, i) => (e.op === "+" ? (x + b[i]) % P : e.op === "-" ? (x - b[i] + P) % P : (x * b[i]) % P));
  }
  const rowsOf = (s) => {
    const sel = s.sel ? ev(s.sel) : null;
    const l = s.l.map(ev);
    const out = [];
    for (let i = 0; i < N; i++) if (!sel || sel[i] !== 0n) out.push(l.map((c) => c[i]).join());
    return out;
  };
  for (const id of pil.ids) {
    if (id.kind === "=") {
      const at = ev(id.e).findIndex((x) => x !== 0n);
      if (at >= 0) wrong.push(`row ${at}: ${id.text}`);
    } else if (id.kind === "in") {
      const t = new Set(rowsOf(id.b));
      const bad = rowsOf(id.a).find((r) => !t.has(r));
      if (bad !== undefined) wrong.push(`${bad} is not in the table: ${id.text}`);
    } else if (id.kind === "is") {
      const [x, y] = [rowsOf(id.a).sort().join(" "), rowsOf(id.b).sort().join(" ")];
      if (x !== y) wrong.push(`no permutation: ${id.text}`);
    } else {
      const cells = connections(pil, cols, id);
      if (typeof cells === "string") wrong.push(cells);
      else {
        const v = id.a.l.map(ev);
        const at = cells.findIndex((c, i) => v[Math.floor(i / N)][i % N] !== v[Math.floor(c / N)][c % N]);
        if (at >= 0) wrong.push(`cells ${at} and ${cells[at]} differ: ${id.text}`);
      }
    }
  }
  return wrong;
}

// the cell each cell of a connection is linked to, or what is wrong with the constants
function connections(pil, cols, id) {
  const N = pil.rows;
  const w = pow(1753635133440165772n, (1n << 32n) / BigInt(N));
  const k = [1n, ...ks(id.a.l.length - 1)];
  const where = new Map();
  k.forEach((f, c) => {
    let x = f;
    for (let i = 0; i < N; i++, x = (x * w) % P) where.set(x, c * N + i);
  });
  const cells = id.b.l.flatMap((e) => cols.get(e.name).map((x) => where.get(x)));
  if (cells.some((c) => c === undefined) || new Set(cells).size !== cells.length) return `the constants are no permutation of the cells: ${id.text}`;
  return cells;
}

module.exports = { P, pow, compile, check, connections, ks };
