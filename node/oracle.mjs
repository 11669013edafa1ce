// Reference oracle: typescript-eslint (type-aware rules) + TypeScript, over in-memory programs.
// Protocol: one JSON request per line on stdin, one JSON response per line on stdout.
import { createRequire } from 'node:module';
import readline from 'node:readline';
import path from 'node:path';
import vm from 'node:vm';
import util from 'node:util';
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const require = createRequire(NM + '/x.js');
const ts = require('typescript');
let tsParser, tsPlugin, Linter, linter;
function loadEslint() {
  if (linter) return;
  tsParser = require('@typescript-eslint/parser');
  tsPlugin = require('@typescript-eslint/eslint-plugin');
  ({ Linter } = require('eslint'));
  linter = new Linter({ cwd: '/' });
}
const libCache = new Map();
const fileCache = new Map();
const LIBDIR = path.dirname(require.resolve('typescript'));
function makeProgram(files, rawOptions, roots, cwd) {
  const conv = ts.convertCompilerOptionsFromJson(rawOptions || {}, cwd);
  const options = { ...conv.options, noEmit: true };
  const host = {
    fileExists: (f) => Object.hasOwn(files, f) || (f.startsWith(LIBDIR) && ts.sys.fileExists(f)),
    readFile: (f) => Object.hasOwn(files, f) ? files[f] : (f.startsWith(LIBDIR) ? ts.sys.readFile(f) : undefined),
    directoryExists: (d) => Object.keys(files).some((f) => f.startsWith(d.endsWith('/') ? d : d + '/')) || d.startsWith(LIBDIR),
    getDirectories: () => [],
    getSourceFile(f, opts) {
      const key = f + '\0' + JSON.stringify(opts);
      if (f.startsWith(LIBDIR)) {
        let sf = libCache.get(key);
        if (!sf) { const t = ts.sys.readFile(f); if (t === undefined) return undefined; sf = ts.createSourceFile(f, t, opts, true); libCache.set(key, sf); }
        return sf;
      }
      if (!Object.hasOwn(files, f)) return undefined;
      return ts.createSourceFile(f, files[f], opts, true);
    },
    getDefaultLibFileName: (o) => path.join(LIBDIR, ts.getDefaultLibFileName(o)),
    getDefaultLibLocation: () => LIBDIR,
    writeFile() {}, getCurrentDirectory: () => cwd, getCanonicalFileName: (f) => f,
    useCaseSensitiveFileNames: () => true, getNewLine: () => '\n', realpath: (f) => f, trace() {},
  };
  return { program: ts.createProgram({ rootNames: roots || Object.keys(files), options, host }), errors: conv.errors };
}
function off(text, sf, line, col) {
  const starts = sf.getLineStarts();
  const l = Math.min(Math.max((line || 1) - 1, 0), starts.length - 1);
  return Math.min(starts[l] + Math.max((col || 1) - 1, 0), text.length);
}
function lintOne(program, p, rules, fixInfo) {
  const sf = program.getSourceFile(p);
  const text = sf.text;
  const rs = {};
  for (const [n, o] of Object.entries(rules)) rs['ts/' + n] = o === null || o === undefined ? 'error' : ['error', ...(Array.isArray(o) ? o : [o])];
  const config = [{
    files: ['**/*.ts', '**/*.tsx', '**/*.mts', '**/*.cts', '**/*.js'],
    languageOptions: { parser: tsParser, parserOptions: { programs: [program], disallowAutomaticSingleRunInference: true, ecmaFeatures: { jsx: p.endsWith('x') } } },
    plugins: { ts: tsPlugin }, rules: rs, linterOptions: { reportUnusedDisableDirectives: 'off', noInlineConfig: true },
  }];
  let msgs;
  try { msgs = linter.verify(text, config, { filename: p }); } catch (e) { return { crash: String(e && e.message || e).slice(0, 500) }; }
  const out = [];
  for (const m of msgs) {
    if (m.fatal || !m.ruleId) return { fatal: m.message };
    const pos = off(text, sf, m.line, m.column);
    const end = m.endLine ? off(text, sf, m.endLine, m.endColumn) : pos;
    out.push({ rule: m.ruleId.slice(3), id: m.messageId, pos, end, fix: m.fix || null, sugg: (m.suggestions || []).map((s) => ({ id: s.messageId, fix: s.fix })) });
  }
  return { messages: out };
}
function diagOut(d) {
  return { code: d.code, cat: d.category, pos: d.start ?? -1, end: d.start === undefined ? -1 : d.start + d.length, file: d.file ? d.file.fileName : null, msg: ts.flattenDiagnosticMessageText(d.messageText, '\n') };
}
function tokensOf(sf) {
  // leaf tokens (start,end,kind); template/JSX/regex aware because it comes from the AST
  const out = [];
  const visit = (n) => {
    if (n.kind >= ts.SyntaxKind.FirstJSDocNode && n.kind <= ts.SyntaxKind.LastJSDocNode) return;
    const ch = n.getChildren(sf);
    if (ch.length === 0) { const s = n.getStart(sf), e = n.getEnd(); if (e > s) out.push([s, e, ts.SyntaxKind[n.kind]]); return; }
    for (const c of ch) visit(c);
  };
  visit(sf);
  return out;
}
const ctx = vm.createContext({});
const handlers = {
  ping() { return { ok: true, ts: ts.version }; },
  lint(req) {
    loadEslint();
    const { program } = makeProgram(req.files, req.options, req.roots, req.cwd || '/p');
    const res = {};
    for (const [p, rules] of Object.entries(req.lint)) res[p] = lintOne(program, p, rules);
    let diags;
    if (req.diags) { diags = {}; for (const p of Object.keys(req.lint)) { const sf = program.getSourceFile(p); diags[p] = { syn: program.getSyntacticDiagnostics(sf).map(diagOut), sem: req.diags === 'all' ? program.getSemanticDiagnostics(sf).map(diagOut) : [] }; } }
    return { res, diags };
  },
  diags(req) {
    const { program, errors } = makeProgram(req.files, req.options, req.roots, req.cwd || '/p');
    const out = {};
    for (const p of req.paths || Object.keys(req.files)) { const sf = program.getSourceFile(p); if (!sf) { out[p] = null; continue; } out[p] = { syn: program.getSyntacticDiagnostics(sf).map(diagOut), sem: program.getSemanticDiagnostics(sf).map(diagOut) }; }
    return { diags: out, opt: errors.map(diagOut), glob: program.getGlobalDiagnostics().map(diagOut), prog: program.getOptionsDiagnostics().map(diagOut) };
  },
  parse(req) {
    return { res: req.texts.map(([name, text]) => { const sf = ts.createSourceFile(name, text, ts.ScriptTarget.ESNext, true); let toks = []; try { if (req.tokens && !sf.parseDiagnostics.length) toks = tokensOf(sf); } catch { return { errors: [[-1, 0, 0]], tokens: [] }; } return { errors: sf.parseDiagnostics.map((d) => [d.code, d.start, d.length]), tokens: toks }; }) };
  },
  transpile(req) {
    return { res: req.texts.map((t) => ts.transpileModule(t, { compilerOptions: { target: 'ESNext', module: 'ESNext', ...(req.options || {}) } }).outputText) };
  },
  async behave(req) { // run exported f of each text of a group on the same inputs
    const out = [];
    for (const { texts, inputs } of req.groups) {
      let scripts;
      try {
        scripts = texts.map((t) => new vm.Script('(function(exports, log, undefined){' + ts.transpileModule(t, { compilerOptions: { target: 'ESNext', module: 'CommonJS' } }).outputText + '\n})'));
      } catch (e) { out.push({ bad: String(e) }); continue; }
      const rows = [];
      for (const inp of inputs) {
        const row = [];
        for (const sc of scripts) {
          const trace = [];
          const log = (tag, v) => { if (trace.length < 200) trace.push(String(tag)); return v; };
          const watch = (o, name) => new Proxy(o, { get(t, k, r) { if (typeof k === 'string') log(name + '.' + k); return Reflect.get(t, k, t); }, set(t, k, v) { log(name + '.' + String(k) + '='); t[k] = v; return true; }, deleteProperty(t, k) { log('delete ' + name + '.' + String(k)); return delete t[k]; } });
          let res;
          try {
            const exp = {};
            ctx.__log = log; ctx.__watch = watch; ctx.__exp = exp; ctx.__fn = sc.runInContext(ctx);
            vm.runInContext('__fn(__exp, __log)', ctx, { timeout: 2000 });
            let v = vm.runInContext('(({log, watch}) => __exp.f(' + inp + '))({log: __log, watch: __watch})', ctx, { timeout: 2000 });
            if (v && typeof v.then === 'function') v = ['promise', await Promise.race([Promise.resolve(v).catch((e) => ['rejected', String(e && e.name || e)]), new Promise((ok) => setTimeout(() => ok('pending'), 1000))])];
            res = 'value ' + util.inspect(v, { depth: 6 });
          } catch (e) { res = 'throws ' + (e && e.name || String(e)); }
          row.push([res, trace.join(' ')]);
        }
        rows.push(row);
      }
      out.push({ rows });
    }
    return { res: out };
  },
  evalStrings(req) { // evaluate JS literals
    return { res: req.exprs.map((e) => { try { return { v: (0, eval)('(' + e + ')') }; } catch (x) { return { err: String(x) }; } }) };
  },
};
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let queue = Promise.resolve();
rl.on('line', (line) => { queue = queue.then(() => answer(line)); });
async function answer(line) {
  if (!line.trim()) return;
  let resp;
  try { const req = JSON.parse(line); resp = await handlers[req.op](req); } catch (e) { resp = { error: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(resp) + '\n');
}
