'use strict';
// The independent parser of the C19 comparison: acorn, as a line server.
// Request:  {"goal": "Script" | "Strict" | "Module", "text": "...", "tree": null | ESTree}
//           or the same with "doc": "acorn" or "esprima", for that parser's own document: "doc <JSON>"
// Answer:   one line, "<verdict> <detail>", where the verdict is
//   same      both accept and the trees are the same
//   reject    both reject
//   skip      outside the comparison
//   differ    they disagree
const path = '/opt/veriftools/node/node_modules/';
const acorn = require(path + 'acorn');
const esprima = require(path + 'esprima');
const vm = require('vm');

// Early errors the parser under test does not claim to implement, by acorn's messages.
const EARLY = [
  /^Identifier '.*' has already been declared/,
  /^Argument name clash/,
  /^Deleting local variable in strict mode/,
  /^Octal literal in strict mode/,
  /^Legacy octal literals? (are|is) not allowed in strict mode/i,
  /^Invalid number/,
  /^(Invalid|Duplicate) regular expression/,
  /^'new\.target' can only be used in functions/,
  /^Redefinition of (__proto__ )?property/i,
  /^Assigning to (eval|arguments) in strict mode/,
  /^Binding .* in strict mode/,
  /^Illegal 'use strict' directive in function with non-simple parameter list/,
  /^Invalid labeled declaration/,
  /^The left-hand side of a for-of loop may not start with 'let'/,
  /^let is disallowed as a lexically bound name/,
];

const DROP = new Set(['start', 'end', 'raw', 'sourceType', 'range', 'loc', 'expression', 'async', 'optional', 'bigint', 'each', 'await', 'tokens', 'comments', 'errors']);

class Unsupported extends Error {}

// acorn adds up the digits of radix literals in floating point, so take those from their source.
function exact(n) {
  if (/^0[xob]/i.test(n.raw)) return Number(BigInt(n.raw.toLowerCase()));
  if (/^0[0-7]+$/.test(n.raw)) return Number(BigInt('0o' + n.raw.slice(1)));
  return n.value;
}

function norm(n, inList) {
  if (Array.isArray(n)) return n.map(norm);
  if (n === null || typeof n !== 'object') return n;
  if (n instanceof RegExp) return null;
  const o = {};
  for (const k of Object.keys(n)) {
    if (k === 'expression' && n.type === 'ExpressionStatement') { o[k] = norm(n[k]); continue; }
    if (DROP.has(k)) continue;
    o[k] = norm(n[k]);
  }
  if (n.async) throw new Unsupported('async');
  switch (n.type) {
    case 'ArrayPattern': o.type = 'ArrayExpression'; break;
    case 'ObjectPattern': o.type = 'ObjectExpression'; break;
    case 'RestElement': o.type = 'SpreadElement'; break;
    case 'Literal':
      if (n.regex) {
        o.value = null;
        o.regex = { pattern: n.regex.pattern, flags: n.regex.flags.split('').sort().join('') };
      } else if (typeof n.value === 'number') {
        const b = Buffer.alloc(8); b.writeDoubleBE(exact(n)); o.value = { bits: b.toString('hex') };
      } else if (typeof n.value === 'string') {
        if (/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/.test(n.value)) throw new Unsupported('surrogate');
      }
      break;
    case 'UnaryExpression': delete o.prefix; break;
    case 'BinaryExpression': case 'AssignmentExpression':
      if (n.operator === '**' || n.operator === '**=') throw new Unsupported('**');
      break;
    case 'TemplateLiteral': case 'TaggedTemplateExpression': case 'ClassDeclaration': case 'ClassExpression':
    case 'ArrowFunctionExpression': case 'AssignmentPattern': case 'YieldExpression': case 'AwaitExpression':
    case 'Super': case 'ImportDeclaration': case 'ExportNamedDeclaration': case 'ExportDefaultDeclaration': case 'ExportAllDeclaration':
      throw new Unsupported(n.type);
    case 'Property':
      if (n.computed) throw new Unsupported('computed');
      break;
    case 'VariableDeclarator':
      if (n.id.type !== 'Identifier') throw new Unsupported('binding pattern');
      break;
    case 'CatchClause':
      if (n.param && n.param.type !== 'Identifier') throw new Unsupported('binding pattern');
      break;
    case 'FunctionDeclaration': case 'FunctionExpression':
      for (const p of n.params) {
        const q = p.type === 'RestElement' ? p.argument : p;
        if (q.type !== 'Identifier') throw new Unsupported('binding pattern');
      }
      break;
    case 'IfStatement':
      for (const s of [n.consequent, n.alternate])
        if (s && s.type === 'FunctionDeclaration') throw new Unsupported('conditional function declaration');
      break;
    case 'LabeledStatement':
      if (n.body.type === 'FunctionDeclaration') throw new Unsupported('labelled function declaration');
      break;
  }
  return o;
}

// Patterns by the expressions they are written as, on both sides.
function relabel(n, second) {
  if (n === null || typeof n !== 'object') return n;
  if (Array.isArray(n)) { n.forEach(x => relabel(x, second)); return n; }
  if (n.type === 'RestElement') n.type = 'SpreadElement';
  // esprima ends the prologue at an empty directive
  if (second) delete n.directive;
  for (const k of Object.keys(n)) relabel(n[k], second);
  return n;
}

function unsupported(n) {
  try { norm(n); return null; } catch (e) { if (e instanceof Unsupported) return e.message; throw e; }
}

function diff(a, b, at) {
  if (a === b) return null;
  if (a === undefined && b === null || a === null && b === undefined) return null;
  if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object' || Array.isArray(a) !== Array.isArray(b))
    return at + ': ' + clip(a) + ' where acorn has ' + clip(b);
  if (Array.isArray(a)) {
    if (a.length !== b.length) return at + ': ' + a.length + ' elements where acorn has ' + b.length;
    for (let i = 0; i < a.length; i++) { const d = diff(a[i], b[i], at + '[' + i + ']'); if (d) return d; }
    return null;
  }
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    const d = diff(a[k], b[k], at + '.' + k);
    if (d) return d;
  }
  return null;
}
function clip(x) { const s = JSON.stringify(x) || 'nothing'; return s.length > 160 ? s.slice(0, 160) + '...' : s; }

// whether the comma at a place is followed by a closing parenthesis
function beforeParen(text, at) {
  const skip = /(?:\s|\/\*[^]*?\*\/|\/\/[^\n\r\u2028\u2029]*|<!--[^\n\r\u2028\u2029]*|-->[^\n\r\u2028\u2029]*)/y;
  for (at += 1; skip.lastIndex = at, skip.test(text); at = skip.lastIndex);
  return text[at] === ')';
}

// whether a let ends its line or is divided
function letBreak(text) {
  const skip = /(?:\s|\/\*[^]*?\*\/|\/\/[^\n\r\u2028\u2029]*|<!--[^\n\r\u2028\u2029]*|-->[^\n\r\u2028\u2029]*)/y;
  for (const m of text.matchAll(/let/g)) {
    let at = m.index + 3;
    for (; skip.lastIndex = at, skip.test(text); at = skip.lastIndex);
    if (text[at] === '/' || /[\n\r\u2028\u2029]/.test(text.slice(m.index, at))) return true;
  }
  return false;
}

// whether the JavaScript engine itself takes the text for a program
function engine(goal, text) { return complaint(goal, text) === ''; }
function complaint(goal, text) {
  try {
    if (goal === 'Module') new vm.SourceTextModule(text);
    else new vm.Script(goal === 'Strict' ? '"use strict";\n' + text : text);
    return '';
  } catch (e) { return e.message || 'error'; }
}

function answer(req) {
  let text = req.text, tree = null, err = null, second = false;
  const strict = req.goal === 'Strict';
  // acorn's looks ahead, and modules, do not know HTML-like comments
  if (/<!--|-->/.test(text)) return 'skip HTML-like comment';
  const commas = [], shift = strict ? 14 : 0;
  const opts = { ecmaVersion: 8, sourceType: req.goal === 'Module' ? 'module' : 'script', allowHashBang: false, onTrailingComma: at => commas.push(at) };
  try {
    tree = acorn.parse(strict ? '"use strict";\n' + text : text, opts);
    if (strict) tree.body.shift();
  } catch (e) {
    if (!(e instanceof SyntaxError)) return 'skip acorn fails: ' + e.message;
    // the initialiser ECMAScript 5 allows in a for-in head, later only outside strict code
    if (/^for-in loop variable declaration may not have an initializer/.test(e.message) && text.startsWith('var', e.pos - shift)) return 'skip for-in initialiser';
    err = e.message.replace(/ \(\d+:\d+\)$/, '');
  }
  // acorn sometimes takes a slash for a division although there is nothing to divide, or the other
  // way round ("var a\n/b/", "{}{}/a/", "for(var a of function(){}/b);"): esprima and the engine decide
  if (tree === null && req.tree !== null && /\//.test(text) && /^Unexpected|^Unterminated regular/.test(err)) {
    try {
      tree = esprima[req.goal === 'Module' ? 'parseModule' : 'parseScript'](strict ? '"use strict";\n' + text : text);
      if (strict) tree.body.shift();
      err = null;
      second = true;
      // esprima takes a string on the next line for the value of a return
      if (/return/.test(text)) return 'skip a slash that acorn cannot place';
    } catch (e) {
      tree = null;
      if (!/^Unexpected|^Invalid or|^Invalid left|^missing|^Invalid regular expression: missing/.test(complaint(req.goal, text))) return 'skip a slash that acorn and esprima cannot place';
    }
  }
  if (err !== null && EARLY.some(r => r.test(err))) return 'skip early error';
  if (tree === null && req.tree === null) return 'reject';
  if (tree === null && /let/.test(text) && (letBreak(text) || engine(req.goal, text))) return 'skip let as a name';
  if (tree === null && /for[^]*async[^]*of/.test(text)) return 'skip async as the target of a for-of';
  if (tree === null) return 'differ accepted, where acorn has: ' + err;
  if (commas.some(at => beforeParen(text, at - shift))) return 'skip unsupported: trailing comma in arguments';
  const u = unsupported(tree);
  // a lone surrogate has no place in a string of the parser under test
  if (u === 'surrogate') return 'skip unsupported: surrogate';
  if (u !== null) return req.tree === null ? 'skip unsupported: ' + u : 'differ accepted, though it has ' + u;
  if (req.tree === null && /const/.test(text) && !engine(req.goal, text)) return 'skip const without a value before of';
  if (req.tree === null && letBreak(text)) return 'skip let as a name';
  if (req.tree === null) return 'differ rejected, where acorn accepts';
  const d = diff(relabel(req.tree, second), relabel(norm(tree), second), '');
  return d === null ? 'same' : 'differ ' + d;
}

// The document another parser makes of a text, numbers by their bits; or "skip".
function document(req) {
  const trees = {}, strict = req.goal === 'Strict', module = req.goal === 'Module', text = strict ? '"use strict";\n' + req.text : req.text;
  try {
    trees.esprima = esprima[module ? 'parseModule' : 'parseScript'](text, { range: req.extras, loc: req.extras, tokens: req.extras });
    trees.acorn = acorn.parse(text, { ecmaVersion: req.version, sourceType: module ? 'module' : 'script', locations: req.extras, ranges: req.extras });
  } catch (e) { return 'skip rejected by one of the others'; }
  const tree = trees[req.doc];
  try {
    // such as esprima taking a string on the next line for the value of a return
    const d = diff(relabel(norm(trees.esprima), true), relabel(norm(trees.acorn), true), '');
    if (d !== null) return 'skip the others disagree';
  } catch (e) { if (e instanceof Unsupported) return 'skip ' + e.message; throw e; }
  if (strict) tree.body.shift();
  const visit = n => {
    if (n === null || typeof n !== 'object' || n instanceof RegExp) return;
    // both add up the digits of radix literals in floating point
    if (n.type === 'Literal' && typeof n.value === 'number') n.value = exact(n);
    if (n.type === 'ArrayPattern' || n.type === 'ObjectPattern') throw new Unsupported('destructuring');
    if (typeof n.value === 'string' && /[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/.test(n.value)) throw new Unsupported('surrogate');
    for (const k of Object.keys(n)) if (k !== 'loc') visit(n[k]);
  };
  try { visit(tree); } catch (e) { if (e instanceof Unsupported) return 'skip ' + e.message; throw e; }
  const json = JSON.stringify(tree, (k, v) => {
    if (typeof v !== 'number') return v;
    const b = Buffer.alloc(8); b.writeDoubleBE(v); return { bits: b.toString('hex') };
  });
  return 'doc ' + json.replace(/[^\x20-\x7e]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));
}

// Where acorn meets the first token that cannot be there: "at <code points>", or "skip".
function blame(req) {
  const text = req.text, strict = req.goal === 'Strict', shift = strict ? 14 : 0;
  // what only acorn reads, or reads another way
  if (/<!--|-->|=>|`|\*\*|class|super|async|import|export/.test(text)) return 'skip more than the parser under test reads';
  try {
    acorn.parse(strict ? '"use strict";\n' + text : text, { ecmaVersion: 8, sourceType: req.goal === 'Module' ? 'module' : 'script', allowHashBang: false });
    return 'skip accepted';
  } catch (e) {
    if (!(e instanceof SyntaxError)) return 'skip acorn fails';
    if (!/^Unexpected token \(/.test(e.message)) return 'skip another error';
    const at = e.pos - shift;
    // acorn cannot always place a slash
    if (/\//.test(text.replace(/\/\*[^]*?\*\/|\/\/.*/g, ''))) return 'skip a slash';
    // a let before a bracket is blamed itself
    if (text.startsWith('let', at)) return 'skip let';
    return 'at ' + [...text.slice(0, at)].length;
  }
}

let rest = '';
const fs = require('fs');
const buf = Buffer.alloc(1 << 16);
const { StringDecoder } = require('string_decoder');
const dec = new StringDecoder('utf8');
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  rest += dec.write(buf.subarray(0, n));
  let i;
  while ((i = rest.indexOf('\n')) >= 0) {
    const line = rest.slice(0, i);
    rest = rest.slice(i + 1);
    let a;
    try { const req = JSON.parse(line); a = req.blame ? blame(req) : req.doc ? document(req) : answer(req); } catch (e) { a = 'broken ' + (e.stack || e); }
    fs.writeSync(1, a.replace(/[\r\n\u2028\u2029]/g, ' ') + '\n');
  }
}
