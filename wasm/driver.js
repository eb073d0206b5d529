// node driver.js MODULE.wasm: answers length-prefixed requests on stdin.
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x;
function fresh() { x = new WebAssembly.Instance(module_, {}).exports; x.init(); }
fresh();
function readN(n) {
  const b = Buffer.allocUnsafe(n);
  let i = 0;
  while (i < n) {
    const k = fs.readSync(0, b, i, n - i, null);
    if (k === 0) process.exit(0);
    i += k;
  }
  return b;
}
function writeAll(b) {
  let i = 0;
  while (i < b.length) i += fs.writeSync(1, b, i, b.length - i);
}
function slice(p, n) { return Buffer.from(Buffer.from(x.memory.buffer, p >>> 0, n)); }
writeAll(Buffer.from([x.simd()]));
for (;;) {
  const n = readN(4).readUInt32LE(0);
  const body = readN(n);
  let out;
  if (x.memory.buffer.byteLength > 64 << 20) fresh();
  const p = x.req(n) >>> 0;
  Buffer.from(x.memory.buffer, p, n).set(body);
  try {
    x.run();
    out = slice(x.resp(), x.resp_len());
  } catch (e) {
    let msg;
    const before = slice(x.resp(), x.resp_len());
    if (x.panic_len() > 0) msg = slice(x.panic_ptr(), x.panic_len());
    else msg = Buffer.from('trap: ' + e.message);
    const h = Buffer.alloc(5);
    h[0] = 7;
    h.writeUInt32LE(msg.length, 1);
    out = Buffer.concat([before, h, msg]);
    fresh();
  }
  const l = Buffer.alloc(4);
  l.writeUInt32LE(out.length, 0);
  writeAll(Buffer.concat([l, out]));
}
