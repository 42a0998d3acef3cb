/*
 * C23 - Runs the WebAssembly build of the library, on the requests of the
 * harness: calls, writes and reads of the memory.
 */
const fs = require('fs');
const m = new WebAssembly.Instance(new WebAssembly.Module(
    fs.readFileSync(process.argv[2])), {}).exports;

/* The memory of the requests is above the one of the module */
const PAGES = 64;
const base = m.memory.grow(PAGES) * 65536;
const mem = Buffer.from(m.memory.buffer);
const stack = m.__stack_pointer.value;
const data = mem.subarray(0, m.__data_end.value);
const data0 = Buffer.from(data);

function get(n) {
    const b = Buffer.alloc(n);
    for (let i = 0; i < n; ) {
        let r = 0;
        try { r = fs.readSync(0, b, i, n - i); }
        catch (e) { if (e.code == 'EAGAIN') continue; throw e; }
        if (!r) process.exit(0);
        i += r;
    }
    return b;
}

function put(b) {
    for (let i = 0; i < b.length; ) {
        try { i += fs.writeSync(1, b, i, b.length - i); }
        catch (e) { if (e.code != 'EAGAIN') throw e; }
    }
}

for (;;) {
    const req = get(get(4).readUInt32LE(0));
    const out = [];
    let p = 0;
    const u32 = () => { p += 4; return req.readUInt32LE(p - 4); };
    const i32 = (v) => { const b = Buffer.alloc(4); b.writeInt32LE(v | 0); out.push(b); };
    let err = 0;

    while (p < req.length && !err) {
        const op = u32();
        if (op == 0) {          /* Call: name, arguments */
            const n = u32(), nargs = u32(), a = [];
            const name = req.toString('latin1', p, p + n);
            p += n;
            for (let i = 0; i < nargs; i++)
                a.push(u32() | 0);
            try { i32(m[name](...a)); }
            catch (e) { err = 1; process.stderr.write(name + ': ' + e + '\n'); }
            if (!err && m.__stack_pointer.value != stack)
                err = 2;
        } else if (op == 1) {   /* Write */
            const a = u32(), n = u32();
            req.copy(mem, base + a, p, p + n);
            p += n;
        } else if (op == 2) {   /* Read */
            const a = u32(), n = u32();
            out.push(Buffer.from(mem.subarray(base + a, base + a + n)));
        } else if (op == 3) {   /* The data of the module is not modified */
            i32(Buffer.compare(data, data0));
        } else if (op == 4) {   /* Fill */
            const a = u32(), n = u32(), v = u32();
            mem.fill(v, base + a, base + a + n);
        } else if (op == 5) {   /* Base of the memory */
            i32(base);
        } else if (op == 6) {   /* Lowest address free after the data */
            i32(m.__data_end.value);
            i32(stack);
        }
    }

    const b = Buffer.concat(out), h = Buffer.alloc(8);
    h.writeUInt32LE(err, 0);
    h.writeUInt32LE(b.length, 4);
    put(Buffer.concat([h, b]));
}
