// Files come one after another on the standard input, each preceded by its length; so do the answers.
import fs from 'fs';
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
// the glue of chrono's clock, which is not called
const imports = {};
for (const i of WebAssembly.Module.imports(m)) (imports[i.module] ??= {})[i.name] = () => { throw new Error(i.name); };
let e = null;
function fill(b) {
  for (let at = 0; at < b.length;) {
    let n;
    try { n = fs.readSync(0, b, at, b.length - at); } catch (x) { if (x.code === 'EAGAIN') continue; throw x; }
    if (n === 0) process.exit(0);
    at += n;
  }
  return b;
}
function send(b) {
  for (let at = 0; at < b.length;) {
    try { at += fs.writeSync(1, b, at); } catch (x) { if (x.code !== 'EAGAIN') throw x; }
  }
}
for (;;) {
  const f = fill(Buffer.alloc(fill(Buffer.alloc(4)).readUInt32BE(0)));
  let t;
  try {
    e ??= new WebAssembly.Instance(m, imports).exports;
    const p = e.room(f.length) >>> 0;
    new Uint8Array(e.memory.buffer).set(f, p);
    const q = e.see(p, f.length) >>> 0;
    const n = new DataView(e.memory.buffer).getUint32(q, true);
    t = Buffer.from(new Uint8Array(e.memory.buffer, q + 4, n));
    e.done(q, n);
  } catch (x) {
    // it cannot be used any more
    e = null;
    t = Buffer.from('failed: ' + x.message);
  }
  const l = Buffer.alloc(4);
  l.writeUInt32BE(t.length);
  send(Buffer.concat([l, t]));
}
