// Translates TypeScript modules: to an ESTree (for the executor) and to CommonJS (for
// replays).  usage: export.cjs OUT.json REPLAYDIR REPO HARNESSDIR harness...
"use strict";
const fs = require("fs");
const path = require("path");

const NM = "/opt/veriftools/node/node_modules/";
const ts = require(NM + "typescript");
const acorn = require(NM + "acorn");

const [out, replay, repo, hdir, ...hs] = process.argv.slice(2);
const modules = {};
const resolve = {};
const todo = hs.map((h) => path.join(hdir, h + ".ts"));

function options() {
  const r = ts.readConfigFile(path.join(repo, "tsconfig.json"), (f) => fs.readFileSync(f, "utf8"));
  const o = r.config && r.config.compilerOptions ? r.config.compilerOptions : {};
  return ts.convertCompilerOptionsFromJson({ target: o.target || "es2020", useDefineForClassFields: o.useDefineForClassFields }, repo).options;
}
const conf = options();
const define = conf.useDefineForClassFields === undefined ? conf.target >= ts.ScriptTarget.ES2022 : conf.useDefineForClassFields;

function nameOf(f) {
  return f.startsWith(repo + "/") ? "polyglot/" + f.slice(repo.length + 1, -3) : "h/" + path.basename(f, ".ts");
}

function find(from, src) {
  if (src === "polyglot") return path.join(repo, "index.ts");
  if (!src.startsWith(".")) return null;
  const p = path.resolve(path.dirname(from), src).replace(/\.(js|ts)$/, "");
  for (const c of [p + ".ts", path.join(p, "index.ts")]) if (fs.existsSync(c)) return c;
  return null;
}

function tag(n, m) {
  if (Array.isArray(n)) return n.forEach((x) => tag(x, m));
  if (!n || typeof n !== "object" || typeof n.type !== "string") return undefined;
  if (/Function|Class/.test(n.type)) n._m = m;
  for (const k of Object.keys(n)) if (k !== "end") tag(n[k], m);
  return undefined;
}

function compile(text, f, module, target) {
  const r = ts.transpileModule(text, {
    fileName: f,
    reportDiagnostics: true,
    compilerOptions: { target, module, useDefineForClassFields: define, removeComments: true, esModuleInterop: true },
  });
  const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
  if (bad.length) throw new Error(f + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, "\n"));
  return r.outputText;
}

while (todo.length) {
  const f = todo.pop();
  const m = nameOf(f);
  if (modules[m]) continue;
  const text = fs.readFileSync(f, "utf8");
  const ast = acorn.parse(compile(text, f, ts.ModuleKind.ESNext, ts.ScriptTarget.ESNext), { ecmaVersion: "latest", sourceType: "module" });
  tag(ast, m);
  modules[m] = ast;
  resolve[m] = {};
  for (const s of ast.body) {
    if (!s.source || s.source.value === "./sym") continue;
    const g = find(f, s.source.value);
    if (g) {
      resolve[m][s.source.value] = nameOf(g);
      todo.push(g);
    }
  }
  const dst = m.startsWith("polyglot/") ? path.join(replay, "node_modules", m + ".js") : path.join(replay, m + ".js");
  fs.mkdirSync(path.dirname(dst), { recursive: true });
  fs.writeFileSync(dst, compile(text, f, ts.ModuleKind.CommonJS, conf.target));
}
fs.writeFileSync(out, JSON.stringify({ modules, resolve }, (k, v) => (typeof v === "bigint" ? String(v) : v)));
