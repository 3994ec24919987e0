// Runs programs against the repository's JavaScript sources. The bindings
// below them are stood in for by classes that record the calls.
// usage: node driver.js <repository> <description of the bindings>
// One program per line on stdin, one answer per line on stdout.
const fs = require("fs");
const path = require("path");
const Module = require("module");

const [repo, described] = process.argv.slice(2);
const description = JSON.parse(described);

function typescript() {
  for (const dir of (process.env.PATH || "").split(":")) {
    try {
      const bin = fs.realpathSync(path.join(dir, "tsc"));
      return require(path.join(path.dirname(bin), "..", "lib", "typescript.js"));
    } catch (e) {
      continue;
    }
  }
  throw new Error("no TypeScript compiler");
}

// --- bindings
let results = [];
const wasm = {};
const made = Symbol("made");

function plain(v) {
  if (v === undefined || v === null) return null;
  if (v[made] !== undefined) {
    const r = v[made];
    if (r === null) throw new Error("null pointer passed to rust");
    v[made] = null;
    return r;
  }
  if (v instanceof Uint8Array || v instanceof Uint32Array) return Array.from(v);
  if (typeof v === "number" && !Number.isFinite(v)) return 0;
  return v;
}

function instance(cls, record) {
  const o = Object.create(cls.prototype);
  o[made] = record;
  return o;
}

const ends = { build: () => new Uint8Array(0), json_with_update_comments: () => "{}", comments_json: () => "{}" };
for (const [name, methods] of Object.entries(description.classes)) {
  const cls = { [name]: class {} }[name];
  cls.prototype.free = function () {
    this[made] = null;
  };
  for (const m of methods) {
    cls.prototype[m] = function (...args) {
      const record = this[made];
      if (!record) throw new Error("null pointer passed to rust");
      const call = [m, args.map(plain)];
      if (name === "Docx" && ends[m]) {
        results.push({ ...record, calls: [...record.calls, call] });
        if (m === "build") this[made] = null;
        return ends[m]();
      }
      record.calls.push(call);
      this[made] = null;
      return instance(cls, record);
    };
  }
  wasm[name] = cls;
}
for (const [f, cls] of Object.entries(description.functions)) {
  wasm[f] = (...args) => {
    const record = { $new: f, args: args.map(plain), calls: [] };
    if (cls) return instance(wasm[cls], record);
    results.push(record);
    return "{}";
  };
}
for (const [name, variants] of Object.entries(description.enums)) {
  wasm[name] = { ...variants, ...Object.fromEntries(Object.entries(variants).map(([v, n]) => [n, v])) };
}

// --- sources
const ts = typescript();
const dir = path.join(repo, "docx-wasm");
const options = ts.parseConfigFileTextToJson("tsconfig", fs.readFileSync(path.join(dir, "tsconfig.node.json"), "utf8")).config.compilerOptions;
Module._extensions[".ts"] = (m, file) => {
  const out = ts.transpileModule(fs.readFileSync(file, "utf8"), {
    compilerOptions: { target: options.target, module: "commonjs", esModuleInterop: true },
    fileName: file,
  });
  m._compile(out.outputText, file);
};
const load = Module._load;
Module._load = function (request, parent, main) {
  if (parent && parent.filename && parent.filename.startsWith(dir)) {
    if (/^\.\.?\/(.*\/)?pkg(\/docx_wasm)?$/.test(request)) return wasm;
    if (/\/bindings\//.test(request)) return {};
  }
  return load.call(this, request, parent, main);
};
const docx = require(path.join(dir, "js", "index.ts"));
// not exported, but what exported methods take
const extra = Object.assign({}, require(path.join(dir, "js", "table.ts")));

// --- programs
function value(v) {
  if (Array.isArray(v)) return v.map(value);
  if (v === null || typeof v !== "object") return v;
  if ("bytes" in v) return Uint8Array.from(v.bytes);
  if ("nothing" in v) return undefined;
  if ("new" in v) {
    const cls = docx[v.new] || extra[v.new];
    if (!cls) throw new Error("no class " + v.new);
    let o = new cls(...(v.args || []).map(value));
    for (const [m, ...args] of v.calls || []) {
      if (m.startsWith("=")) {
        o[m.slice(1)] = value(args[0]);
        continue;
      }
      const path = m.split(".");
      const name = path.pop();
      const at = path.reduce((x, k) => x[k], o);
      if (typeof at[name] !== "function") throw new Error("no method " + v.new + "." + m);
      const r = at[name](...args.map(value));
      if (at === o && r !== undefined) o = r;
    }
    return o;
  }
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, value(x)]));
}

let rest = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  rest += d;
  let n;
  while ((n = rest.indexOf("\n")) >= 0) {
    const line = rest.slice(0, n);
    rest = rest.slice(n + 1);
    let answer;
    try {
      results = [];
      const p = JSON.parse(line);
      const d = value(p.program);
      for (const [e, ...args] of p.ends) e in d ? d[e]() : docx[e](...args.map(value));
      answer = { results };
    } catch (e) {
      answer = { error: String(e && e.message), stack: String(e && e.stack) };
    }
    fs.writeSync(1, JSON.stringify(answer) + "\n");
  }
});
