'use strict';
const fs = require('fs');
new Function('$global', fs.readFileSync(process.argv[1], 'utf8'))(globalThis);
function readFull(n) {
    const b = Buffer.alloc(n);
    for (let i = 0; i < n;) {
        let l = 0;
        try {
            l = fs.readSync(0, b, i, n - i, null);
        } catch (e) {
            if (e.code === 'EAGAIN') continue;
            throw e;
        }
        if (l === 0) process.exit(0);
        i += l;
    }
    return b;
}
function writeFull(b) {
    for (let i = 0; i < b.length;) {
        try {
            i += fs.writeSync(1, b, i);
        } catch (e) {
            if (e.code !== 'EAGAIN') throw e;
        }
    }
}
for (;;) {
    const sz = readFull(8);
    const rq = JSON.parse(readFull(sz.readUInt32LE(0)).toString());
    const data = readFull(sz.readUInt32LE(4));
    let ofs = 0;
    const args = [], shared = [];
    for (const a of rq.args) {
        if (a.t === 'v') {
            args.push(a.v);
            continue;
        }
        const u8 = new Uint8Array(a.len);
        u8.set(data.subarray(ofs, ofs + a.len));
        ofs += a.len;
        if (a.t === 'u8') {
            args.push(u8);
            shared.push(u8);
        } else {
            args.push(new Uint32Array(u8.buffer));
        }
    }
    const rp = {ret: {t: 'v', v: null}};
    let tail = [];
    try {
        let o = globalThis;
        for (const k of rq.path) o = o[k];
        const r = o[rq.name](...args);
        if (r instanceof Uint32Array || r instanceof Uint8Array) {
            rp.ret = {t: r instanceof Uint32Array ? 'u32' : 'u8'};
            tail = [Buffer.from(r.buffer, r.byteOffset, r.byteLength)];
        } else if (r !== undefined) {
            rp.ret.v = r;
        }
    } catch (e) {
        rp.err = String(e);
    }
    const payload = Buffer.concat(shared.map(b => Buffer.from(b.buffer)).concat(tail));
    const h = Buffer.from(JSON.stringify(rp));
    const hd = Buffer.alloc(8);
    hd.writeUInt32LE(h.length, 0);
    hd.writeUInt32LE(payload.length, 4);
    writeFull(Buffer.concat([hd, h, payload]));
}
