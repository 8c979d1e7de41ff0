// Runs programs in the WebAssembly module given, from standard input; see
// ../harness/src/wire.rs for the protocol.
import fs from 'node:fs';

const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const inst = new WebAssembly.Instance(mod, {}).exports;
if (inst.pointer_width() !== 32) throw new Error('not 32 bit');

function read(n) {
  const b = Buffer.alloc(n);
  let i = 0;
  while (i < n) {
    let k;
    try {
      k = fs.readSync(0, b, i, n - i);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    i += k;
  }
  return b;
}

function write(b) {
  let i = 0;
  while (i < b.length) {
    try {
      i += fs.writeSync(1, b, i);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}

for (;;) {
  const req = read(read(4).readUInt32LE());
  let out;
  try {
    const p = inst.request(req.length) >>> 0;
    new Uint8Array(inst.memory.buffer, p, req.length).set(req);
    const q = inst.run(p, req.length) >>> 0;
    const n = new DataView(inst.memory.buffer).getUint32(q, true);
    out = Buffer.from(new Uint8Array(inst.memory.buffer, q + 4, n));
    inst.release(q, n + 4);
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    // A panic. What it leaves behind ends with this process.
    write(Buffer.from([255, 255, 255, 255]));
    process.exit(0);
  }
  write(out);
}
