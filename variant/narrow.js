// Runs variants built for 32-bit addresses. Requests on standard input:
// u32 variant, mode, part, length of a, length of b, u64 bits, a, b;
// answers on standard output: u32 status (0 no such part, 1 text, 2 it
// panicked), u32 length, text.
'use strict';
const fs = require('fs');
const modules = process.argv.slice(2).map((f) => new WebAssembly.Module(fs.readFileSync(f)));
const live = modules.map(() => null);

function start(i) {
    const e = new WebAssembly.Instance(modules[i], {}).exports;
    const parts = e.jj_parts();
    live[i] = { e, parts };
    return live[i];
}

function read(n) {
    const b = Buffer.alloc(n);
    let at = 0;
    while (at < n) {
        let k;
        try {
            k = fs.readSync(0, b, at, n - at, null);
        } catch (err) {
            if (err.code === 'EAGAIN') continue;
            throw err;
        }
        if (k === 0) process.exit(0);
        at += k;
    }
    return b;
}

function write(b) {
    let at = 0;
    while (at < b.length) {
        try {
            at += fs.writeSync(1, b, at, b.length - at);
        } catch (err) {
            if (err.code !== 'EAGAIN') throw err;
        }
    }
}

for (;;) {
    const head = read(28);
    const [which, mode, part, alen, blen] = [0, 4, 8, 12, 16].map((o) => head.readUInt32LE(o));
    const bits = head.readBigUInt64LE(20);
    const input = read(alen + blen);
    const v = live[which] || start(which);
    let status = 2;
    let text = Buffer.alloc(0);
    if (mode === 99) {
        status = 1;
        text = Buffer.from(String(v.parts));
    } else {
        try {
            const p = v.e.jj_buffer(alen + blen + 16);
            new Uint8Array(v.e.memory.buffer).set(input, p + 16);
            status = v.e.jj_run(mode, part, p + 16, alen, p + 16 + alen, blen, bits, p, p + 4) ? 1 : 0;
            const mem = Buffer.from(v.e.memory.buffer);
            const at = mem.readUInt32LE(p);
            text = Buffer.from(mem.subarray(at, at + mem.readUInt32LE(p + 4)));
        } catch (err) {
            if (!(err instanceof WebAssembly.RuntimeError || err instanceof RangeError)) throw err;
            status = 2;
            text = Buffer.from(String(err));
            live[which] = null;
        }
    }
    const answer = Buffer.alloc(8 + text.length);
    answer.writeUInt32LE(status, 0);
    answer.writeUInt32LE(text.length, 4);
    text.copy(answer, 8);
    write(answer);
}
