"use strict";
// Serves requests, one JSON per line: {cmd: "dump", files} parses modules to a description of what
// they declare; {cmd: "check", files, paths} type-checks them together as strict TypeScript.
const ts = require(process.argv[2] + "/typescript");
const readline = require("readline");

const LIB = `
interface Object { constructor: Function; toString(): string; }
interface Function { (...args: any[]): any; length: number; }
interface CallableFunction extends Function {} interface NewableFunction extends Function {}
interface IArguments {} interface RegExp {}
interface String { readonly length: number; charAt(i: number): string; }
interface Number { toFixed(n?: number): string; } interface Boolean { valueOf(): boolean; }
interface Symbol {}
interface ReadonlyArray<T> { readonly length: number; readonly [n: number]: T; map<U>(f: (v: T) => U): U[]; }
interface Array<T> { length: number; [n: number]: T; push(v: T): number; map<U>(f: (v: T) => U): U[]; }
type Partial<T> = { [P in keyof T]?: T[P] };
type Required<T> = { [P in keyof T]-?: T[P] };
type Readonly<T> = { readonly [P in keyof T]: T[P] };
type Pick<T, K extends keyof T> = { [P in K]: T[P] };
type Record<K extends keyof any, T> = { [P in K]: T };
type Exclude<T, U> = T extends U ? never : T;
type Extract<T, U> = T extends U ? T : never;
type Omit<T, K extends keyof any> = Pick<T, Exclude<keyof T, K>>;
type NonNullable<T> = T & {};
type ReturnType<T extends (...args: any) => any> = T extends (...args: any) => infer R ? R : any;
type Parameters<T extends (...args: any) => any> = T extends (...args: infer P) => any ? P : never;
`;
const libFile = ts.createSourceFile("/lib.d.ts", LIB, ts.ScriptTarget.ES2020, true);
const cache = new Map();

function source(name, text) {
  const key = name + "\0" + text;
  if (text.length < 20000 && cache.has(key)) return cache.get(key);
  const file = ts.createSourceFile(name, text, ts.ScriptTarget.ES2020, true);
  if (name.startsWith("/fixed/")) cache.set(key, file);
  return file;
}

function comments(node, file) {
  const ranges = ts.getLeadingCommentRanges(file.text, node.pos) || [];
  return ranges.map((r) => file.text.slice(r.pos, r.end));
}

const KEYWORDS = {
  [ts.SyntaxKind.StringKeyword]: "string",
  [ts.SyntaxKind.NumberKeyword]: "number",
  [ts.SyntaxKind.BooleanKeyword]: "boolean",
  [ts.SyntaxKind.AnyKeyword]: "any",
  [ts.SyntaxKind.NeverKeyword]: "never",
  [ts.SyntaxKind.UndefinedKeyword]: "undefined",
  [ts.SyntaxKind.UnknownKeyword]: "unknown",
  [ts.SyntaxKind.NullKeyword]: "null",
  [ts.SyntaxKind.ObjectKeyword]: "object",
  [ts.SyntaxKind.VoidKeyword]: "void",
};

function members(list, file) {
  const props = [];
  for (const m of list) {
    if (!ts.isPropertySignature(m)) {
      props.push({ name: "<" + ts.SyntaxKind[m.kind] + ">", optional: false, readonly: false, type: { k: "other" }, doc: [] });
      continue;
    }
    const name = ts.isIdentifier(m.name) || ts.isStringLiteral(m.name) || ts.isNumericLiteral(m.name) ? m.name.text : m.name.getText(file);
    props.push({
      name,
      optional: !!m.questionToken,
      readonly: !!(m.modifiers || []).some((x) => x.kind === ts.SyntaxKind.ReadonlyKeyword),
      type: m.type ? type(m.type, file) : { k: "kw", name: "any" },
      doc: comments(m, file),
    });
  }
  return { k: "obj", props };
}

function type(node, file) {
  if (KEYWORDS[node.kind]) return { k: "kw", name: KEYWORDS[node.kind] };
  if (ts.isParenthesizedTypeNode(node)) return type(node.type, file);
  if (ts.isUnionTypeNode(node)) {
    const items = [];
    for (const t of node.types) {
      const d = type(t, file);
      if (d.k === "union") items.push(...d.items);
      else items.push(d);
    }
    return { k: "union", items };
  }
  if (ts.isArrayTypeNode(node)) return { k: "arr", item: type(node.elementType, file) };
  if (ts.isTypeOperatorNode(node) && node.operator === ts.SyntaxKind.ReadonlyKeyword) return { ...type(node.type, file), readonly: true };
  if (ts.isTypeLiteralNode(node)) return members(node.members, file);
  if (ts.isLiteralTypeNode(node)) {
    const l = node.literal;
    if (l.kind === ts.SyntaxKind.NullKeyword) return { k: "kw", name: "null" };
    if (ts.isStringLiteral(l) || ts.isNoSubstitutionTemplateLiteral(l)) return { k: "lit", value: l.text };
    return { k: "other", text: node.getText(file) };
  }
  if (ts.isTypeReferenceNode(node)) {
    const name = node.typeName.getText(file);
    const args = (node.typeArguments || []).map((a) => type(a, file));
    if ((name === "Array" || name === "ReadonlyArray") && args.length === 1) return { k: "arr", item: args[0] };
    // What another module calls it, which may be what something of this module is called, too
    if (aliases.has(name)) return { k: "ref", name: aliases.get(name), args, imported: true };
    return { k: "ref", name, args };
  }
  return { k: "other", text: node.getText(file) };
}

function isExported(node) {
  return !!(node.modifiers || []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
}

let aliases = new Map();

function dump(name, text) {
  const file = ts.createSourceFile("/" + name, text, ts.ScriptTarget.ES2020, true);
  const out = { diagnostics: file.parseDiagnostics.map((d) => ts.flattenDiagnosticMessageText(d.messageText, "\n")), imports: [], types: {}, enums: {}, exported: [], duplicates: [], order: [], consts: {}, defaults: [], other: [] };
  const declare = (table, id, value, node) => {
    if (Object.hasOwn(out.types, id) || Object.hasOwn(out.enums, id)) out.duplicates.push(id);
    table[id] = value;
    out.order.push(id);
    if (isExported(node)) out.exported.push(id);
  };
  aliases = new Map();
  for (const s of file.statements) {
    const named = ts.isImportDeclaration(s) && s.importClause && s.importClause.namedBindings;
    if (named && ts.isNamedImports(named))
      for (const e of named.elements) if (e.propertyName) aliases.set(e.name.text, e.propertyName.text);
  }
  for (const s of file.statements) {
    if (ts.isImportDeclaration(s)) {
      const clause = s.importClause;
      const names = [];
      if (clause && clause.namedBindings && ts.isNamedImports(clause.namedBindings))
        for (const e of clause.namedBindings.elements) names.push((e.propertyName || e.name).text);
      else if (clause) names.push("<other>");
      out.imports.push({ module: s.moduleSpecifier.text, names, typeOnly: !!(clause && (clause.isTypeOnly || clause.phaseModifier === ts.SyntaxKind.TypeKeyword)) });
    } else if (ts.isTypeAliasDeclaration(s)) {
      declare(out.types, s.name.text, { type: type(s.type, file), doc: comments(s, file) }, s);
    } else if (ts.isInterfaceDeclaration(s)) {
      declare(out.types, s.name.text, { type: members(s.members, file), doc: comments(s, file) }, s);
    } else if (ts.isEnumDeclaration(s)) {
      declare(out.enums, s.name.text, {
        doc: comments(s, file),
        members: s.members.map((m) => ({ name: m.name.text, value: m.initializer && ts.isStringLiteral(m.initializer) ? m.initializer.text : null, doc: comments(m, file) })),
      }, s);
    } else if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations)
        out.consts[d.name.getText(file)] = d.type ? type(d.type, file) : null;
    } else if (ts.isExportAssignment(s)) {
      out.defaults.push(s.expression.getText(file));
    } else if (s.kind !== ts.SyntaxKind.EmptyStatement) {
      out.other.push(s.getText(file).slice(0, 200));
    }
  }
  return out;
}

function check(files, paths) {
  const all = new Map(Object.entries(files));
  const host = {
    getSourceFile: (n) => (n === "/lib.d.ts" ? libFile : all.has(n) ? source(n, all.get(n)) : undefined),
    getDefaultLibFileName: () => "/lib.d.ts",
    writeFile: () => {},
    getCurrentDirectory: () => "/",
    getCanonicalFileName: (n) => n,
    useCaseSensitiveFileNames: () => true,
    getNewLine: () => "\n",
    fileExists: (n) => all.has(n),
    readFile: (n) => all.get(n),
    directoryExists: () => true,
    getDirectories: () => [],
  };
  const options = { strict: true, noEmit: true, noLib: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, baseUrl: "/", paths, types: [], skipLibCheck: false };
  const program = ts.createProgram(["/lib.d.ts", ...all.keys()], options, host);
  const diags = ts.getPreEmitDiagnostics(program);
  return diags.map((d) => ({ file: d.file ? d.file.fileName : null, code: d.code, line: d.file ? d.file.getLineAndCharacterOfPosition(d.start).line + 1 : 0, message: ts.flattenDiagnosticMessageText(d.messageText, "\n") }));
}

const rl = readline.createInterface({ input: process.stdin });
rl.on("line", (line) => {
  let reply;
  try {
    const req = JSON.parse(line);
    if (req.cmd === "dump") {
      reply = {};
      for (const [n, t] of Object.entries(req.files)) reply[n] = dump(n, t);
    } else if (req.cmd === "check") reply = check(req.files, req.paths || {});
    else throw new Error("unknown command");
    reply = { ok: reply };
  } catch (e) {
    reply = { error: String(e && e.stack || e) };
  }
  process.stdout.write(JSON.stringify(reply) + "\n");
});
process.stdout.on("error", () => process.exit(0));
rl.on("close", () => process.exit(0));
