// Says whether JSON texts have the shape the repository's type DocxJSON declares.
// usage: node types.js <repository>
// One JSON text per line on stdin; the answer is "null" or [place, what is wrong] as JSON.
const fs = require("fs");
const path = require("path");

const repo = process.argv[2];

function typescript() {
  for (const dir of (process.env.PATH || "").split(":")) {
    try {
      const bin = fs.realpathSync(path.join(dir, "tsc"));
      return require(path.join(path.dirname(bin), "..", "lib", "typescript.js"));
    } catch (e) {
      continue;
    }
  }
  throw new Error("no TypeScript compiler");
}

const ts = typescript();
const index = path.join(repo, "docx-wasm", "js", "json", "index.ts");
const program = ts.createProgram([index], { strict: true, target: ts.ScriptTarget.ES2019, noEmit: true, moduleResolution: ts.ModuleResolutionKind.NodeJs || ts.ModuleResolutionKind.Node10, types: [], skipLibCheck: true });
const checker = program.getTypeChecker();
const source = program.getSourceFile(index);
const symbol = checker.getExportsOfModule(checker.getSymbolAtLocation(source)).find((s) => s.name === "DocxJSON");
if (!symbol) throw new Error("no type DocxJSON");

const F = ts.TypeFlags;
const shown = (v) => (v === undefined ? "nothing" : JSON.stringify(v).slice(0, 80));
const wrong = (t) => {
  const what = checker.typeToString(t);
  return (v, at) => [at, `${shown(v)} is no ${what}`];
};
const made = new Map();

// A function of a value and its place that gives null or what is wrong.
function check(t) {
  if (made.has(t)) return made.get(t);
  let f = null;
  const late = (v, at) => f(v, at);
  made.set(t, late);
  f = make(t);
  made.set(t, f);
  return f;
}

function make(t) {
  const no = wrong(t);
  const when = (ok) => (v, at) => (ok(v) ? null : no(v, at));
  if (t.flags & (F.Any | F.Unknown)) {
    // a type the sources do not define says nothing
    return () => null;
  }
  if (t.isUnion()) return union(t, no);
  if (t.isIntersection()) {
    const all = t.types.map(check);
    return (v, at) => all.reduce((r, c) => r || c(v, at), null);
  }
  if (t.isStringLiteral() || t.isNumberLiteral()) return when((v) => v === t.value);
  if (t.flags & F.BooleanLiteral) return when((v) => v === (t.intrinsicName === "true"));
  if (t.flags & F.String) return when((v) => typeof v === "string");
  if (t.flags & (F.Number | F.BigInt)) return when((v) => typeof v === "number");
  if (t.flags & F.Boolean) return when((v) => typeof v === "boolean");
  if (t.flags & F.Null) return when((v) => v === null);
  if (t.flags & (F.Undefined | F.Void)) return when((v) => v === undefined);
  if (checker.isTupleType(t)) {
    const all = checker.getTypeArguments(t).map(check);
    return (v, at) => (!Array.isArray(v) || v.length !== all.length ? no(v, at) : all.reduce((r, c, i) => r || c(v[i], `${at}[${i}]`), null));
  }
  if (checker.isArrayType(t)) {
    const item = check(checker.getTypeArguments(t)[0]);
    return (v, at) => (!Array.isArray(v) ? no(v, at) : v.reduce((r, x, i) => r || item(x, `${at}[${i}]`), null));
  }
  const props = checker.getPropertiesOfType(t).map((p) => {
    const d = p.valueDeclaration || (p.declarations && p.declarations[0]) || source;
    return [p.name, check(checker.getTypeOfSymbolAtLocation(p, d)), !!(p.flags & ts.SymbolFlags.Optional)];
  });
  const named = checker.getIndexInfoOfType(t, ts.IndexKind.String);
  const values = named && check(named.type);
  return (v, at) => {
    if (v === null || typeof v !== "object" || Array.isArray(v)) return no(v, at);
    for (const [name, c, optional] of props) {
      if (optional && !(name in v)) continue;
      // a member left out says the same as null
      const r = c(name in v || c(null, at) ? v[name] : null, `${at}.${name}`);
      if (r) return r;
    }
    if (values) {
      for (const k of Object.keys(v)) {
        const r = values(v[k], `${at}.*`);
        if (r) return r;
      }
    }
    return null;
  };
}

function union(t, no) {
  const all = t.types.map(check);
  // members told apart by their member "type"
  const kinds = t.types.map((m) => {
    const p = m.flags & F.Object ? checker.getPropertyOfType(m, "type") : undefined;
    const k = p && p.valueDeclaration ? checker.getTypeOfSymbolAtLocation(p, p.valueDeclaration) : undefined;
    return k && k.isStringLiteral() ? k.value : null;
  });
  const objects = t.types.filter((m) => m.flags & F.Object).length;
  return (v, at) => {
    let deep = null;
    for (let i = 0; i < all.length; i++) {
      const r = all[i](v, at);
      if (!r) return null;
      const meant = v !== null && typeof v === "object" && t.types[i].flags & F.Object && (objects === 1 || (kinds[i] !== null && kinds[i] === v.type));
      if (meant) deep = r;
    }
    return deep || no(v !== null && typeof v === "object" && "type" in v ? { type: v.type } : v, at);
  };
}

const docx = check(checker.getDeclaredTypeOfSymbol(symbol));
let rest = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  rest += d;
  let n;
  while ((n = rest.indexOf("\n")) >= 0) {
    const line = rest.slice(0, n);
    rest = rest.slice(n + 1);
    fs.writeSync(1, JSON.stringify(docx(JSON.parse(line), "")) + "\n");
  }
});
