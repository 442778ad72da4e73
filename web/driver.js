// Runs sequences of calls on the web API, without the glue that wasm-bindgen generates.
// usage: node driver.js MODULE.wasm; requests and replies are JSON behind a 4 byte length.
// A request is a list of calls on one new instance:
//   ["parse", hex]                -> object           ["new", class]          -> object
//   ["get", class, name, obj]     -> number           ["set", class, name, obj, number or string]
//   ["call", name, obj, ...objs]  -> string           ["free", class, obj]
// Objects are the numbers of the calls that made them. The reply lists the results; a trap ends it.
'use strict';
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));

function start() {
  const imports = {};
  for (const i of WebAssembly.Module.imports(module_)) {
    imports[i.module] = imports[i.module] || {};
    imports[i.module][i.name] = i.name === '__wbindgen_throw'
      ? (p, n) => { throw new Error(Buffer.from(e.memory.buffer, p, n).toString('utf8')); }
      : () => 0;
  }
  const e = new WebAssembly.Instance(module_, imports).exports;
  return e;
}

function put(e, bytes) {
  const p = e.__wbindgen_malloc(bytes.length) >>> 0;
  new Uint8Array(e.memory.buffer, p, bytes.length).set(bytes);
  return p;
}

// A function that returns a string gets the address of {pointer, length} first.
function text(e, f, args) {
  const ret = e.__wbindgen_malloc(8) >>> 0;
  f(ret, ...args);
  const [p, n] = new Uint32Array(e.memory.buffer, ret, 2);
  const s = Buffer.from(e.memory.buffer, p, n).toString('utf8');
  e.__wbindgen_free(p, n);
  e.__wbindgen_free(ret, 8);
  return s;
}

function run(calls) {
  const e = start();
  const out = [];
  const obj = [];
  for (const c of calls) {
    let r = null;
    try {
      switch (c[0]) {
        case 'parse': {
          const b = Buffer.from(c[1], 'hex');
          r = obj[out.length] = e.items_parse(put(e, b), b.length);
          break;
        }
        case 'new': r = obj[out.length] = e[c[1] + '_new'](); break;
        case 'get': r = e[c[1] + '_' + c[2]](obj[c[3]]) >>> 0; break;
        case 'set':
          if (typeof c[4] === 'string') {
            const b = Buffer.from(c[4], 'utf8');
            e[c[1] + '_' + c[2]](obj[c[3]], put(e, b), b.length);
          } else {
            e[c[1] + '_' + c[2]](obj[c[3]], c[4] | 0);
          }
          break;
        case 'call': r = text(e, e['items_' + c[1]], c.slice(2).map(x => obj[x])); break;
        case 'free': e['__wbg_' + c[1] + '_free'](obj[c[2]]); break;
        case 'size': r = e.memory.buffer.byteLength; break;
        default: throw new Error('no such call: ' + c[0]);
      }
    } catch (x) {
      out.push({ error: String(x && x.stack || x).slice(0, 600) });
      return out;
    }
    out.push(r);
  }
  return out;
}

function exact(n) {
  const b = Buffer.alloc(n);
  for (let i = 0; i < n;) {
    let k;
    try { k = fs.readSync(0, b, i, n - i, null); } catch (x) { if (x.code === 'EAGAIN') continue; throw x; }
    if (k === 0) process.exit(0);
    i += k;
  }
  return b;
}

for (;;) {
  const n = exact(4).readUInt32LE(0);
  const reply = Buffer.from(JSON.stringify(run(JSON.parse(exact(n).toString('utf8')))), 'utf8');
  const head = Buffer.alloc(4);
  head.writeUInt32LE(reply.length, 0);
  const all = Buffer.concat([head, reply]);
  for (let i = 0; i < all.length;) {
    try { i += fs.writeSync(1, all, i); } catch (x) { if (x.code !== 'EAGAIN') throw x; }
  }
}
