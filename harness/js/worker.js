// C23, the web worker: stand-ins for WASI, the compiled library and the canvas

function fakeWorker() {
    const w = { sent: [], errors: [], worker: null };
    class ThreadWorker {
        constructor(self) { w.worker = this; w.self = self; }
        sendResponse(id, payload, transfer) { w.sent.push({ id, payload, transfer }); }
        sendError(id, payload) { w.errors.push({ id, payload }); }
    }
    w.imports = {
        "async-thread-worker": { ThreadWorker },
        "@bjorn3/browser_wasi_shim": {
            WASI: class { constructor(args, env, fds) { this.wasiImport = {}; } },
            File: class { constructor(data) { this.data = new Uint8Array(data); } },
            OpenFile: class { constructor(file) { this.file = file; } },
            PreopenDirectory: class { },
        },
    };
    return w;
}

// the library in its own growing memory; every call is recorded and may move the memory
function fakeLibrary(grow) {
    const memory = new WebAssembly.Memory({ initial: 1 });
    const lib = { calls: [], live: new Map(), memory, top: 1040, bad: 0, palettes: new Map(), objects: new Map() };
    lib.bytes = () => new Uint8Array(memory.buffer);
    const moved = () => { if (grow) memory.grow(1); };
    lib.has = (ptr, n) => {
        for (const [p, size] of lib.live) if (ptr >= p && ptr + n <= p + size) return true;
        return false;
    };
    lib.alloc = n => { const p = lib.top; lib.top += n + 16 - n % 8; lib.live.set(p, n); return p; };
    lib.free = (n, p, why) => {
        H.check(lib.live.has(p), why);
        if (lib.live.has(p)) H.check(lib.live.get(p) === n, why + 1);
        lib.live.delete(p);
        const b = lib.bytes();
        for (let i = 0; i < n && i < 4096; i++) b[p + i] = 0xdd;
    };
    lib.read = (ptr, n) => {
        H.check(lib.has(ptr, n), 70);
        return Array.from(lib.bytes().subarray(ptr, ptr + n));
    };
    lib.exports = {
        memory,
        create_image_buffer(size) { const p = lib.alloc(size); lib.calls.push('create_image_buffer'); moved(); return p; },
        free_image_buffer(size, ptr) { lib.free(size, ptr, 71); },
    };
    return lib;
}

function fakeGlobals(lib) {
    globalThis.self = { name: 'worker' };
    globalThis.fetch = name => Promise.resolve({ name });
    globalThis.WebAssembly = {
        Memory: WebAssembly.Memory,
        compileStreaming: async r => { await r; return { module: true }; },
        instantiate: async (m, imports) => ({ exports: lib.exports }),
    };
    globalThis.TextDecoder = class { decode(d) { return ''; } };
    globalThis.ImageData = class { constructor(data, width, height) { this.data = data; this.width = width; this.height = height; } };
    globalThis.OffscreenCanvas = class {
        constructor(width, height) { this.width = width; this.height = height; }
        getContext() { return { putImageData: (d, x, y) => { this.image = d; this.at = [x, y]; } }; }
        async convertToBlob() { return { image: this.image, width: this.width, height: this.height, at: this.at }; }
    };
}

async function startWorker(lib) {
    const w = fakeWorker();
    const real = WebAssembly;
    fakeGlobals(lib);
    await H.load('image-palette-recoloring-web/src/js/webworker.js', w.imports);
    H.check(w.worker !== null, 60);
    return w;
}

const SIZES = [[1, 1], [2, 1], [1, 2], [3, 1], [2, 2], [1, 3], [3, 2], [16, 17]];
// numbers of colours
function count(k) { return k < 8 ? k : [10, 60, 255][k - 8]; }

function symbolicImage(k) {
    const [width, height] = SIZES[k % 8];
    const array = new Uint8ClampedArray(width * height * 4);
    for (let i = 0; i < width * height * 4; i++) array[i] = H.int(i, 0, 255);
    return { width, height, array, copy: Array.from(array) };
}

function checkRgb(lib, ptr, img) {
    const b = lib.read(ptr, img.width * img.height * 3);
    for (let i = 0; i < img.width * img.height; i++)
        for (let j = 0; j < 3; j++) H.check(b[3 * i + j] === img.copy[4 * i + j], 1);
}

// a second view of the same pixels comes back with the answer
function checkReturned(w, img, id, k) {
    H.check(w.sent.length === 1, 10);
    H.check(w.errors.length === 0, 11);
    const s = w.sent[0];
    H.check(s.id === id, 12);
    const a = s.payload[1];
    H.check(a.length === img.copy.length, 13);
    for (let i = 0; i < img.copy.length; i++) H.check(a[i] === img.copy[i], 14);
    return s.payload[0];
}

// createImageWeights: sizes, thrown errors (case >= 16)
globalThis.h_js_weights = async function (kase) {
    const lib = fakeLibrary(kase % 2 === 1);
    const fails = kase >= 16;
    const img = symbolicImage(kase % 16);
    const ptr = H.int(900, 0, 4294967295);
    let calls = 0;
    lib.exports.create_image_weights = (width, height, p) => {
        calls++;
        H.check(width === img.width, 2);
        H.check(height === img.height, 3);
        checkRgb(lib, p, img);
        if (kase % 2 === 1) lib.memory.grow(1);
        if (fails) throw new Error('trap');
        return ptr;
    };
    const w = await startWorker(lib);
    let thrown = false;
    try {
        await w.worker.onRequest(5, { method: 'createImageWeights', args: [img.array, img.width, img.height] });
    } catch (e) {
        thrown = true;
    }
    H.check(calls === 1, 4);
    H.check(thrown === fails || (fails && w.errors.length === 1), 5);
    if (!fails) H.check(checkReturned(w, img, 5) === ptr, 6);
    H.check(lib.live.size === 0, 7);
    H.reach(fails ? 2 : 1);
};

// computePalette with a palette of kase / 16 colours
globalThis.h_js_palette = async function (kase) {
    const lib = fakeLibrary(kase % 2 === 1);
    const img = symbolicImage(kase % 16);
    const size = kase >= 256 ? count(Math.floor(kase / 16) - 8) : Math.floor(kase / 16) % 8, fails = kase >= 128 && kase < 256;
    const min = H.int(901, 0, 255), max = H.int(902, 0, 255), bound = H.int(903, 0, 1000);
    const colors = [];
    for (let i = 0; i < size; i++) colors.push([H.int(1000 + 3 * i, 0, 255), H.int(1001 + 3 * i, 0, 255), H.int(1002 + 3 * i, 0, 255)]);
    let calls = 0, frees = 0, palette = 0;
    lib.exports.compute_palette = (width, height, p, a, b, e, out) => {
        calls++;
        H.check(width === img.width, 2);
        H.check(height === img.height, 3);
        H.check(a === min, 20);
        H.check(b === max, 21);
        H.check(e === bound, 22);
        checkRgb(lib, p, img);
        H.check(lib.has(out, 1), 23);
        H.check(out >= p + 3 * img.width * img.height || out + 1 <= p, 24);
        if (kase % 2 === 1) lib.memory.grow(1);
        if (fails) throw new Error('trap');
        palette = lib.alloc(3 * size);
        const mem = lib.bytes();
        for (let i = 0; i < size; i++) for (let j = 0; j < 3; j++) mem[palette + 3 * i + j] = colors[i][j];
        mem[out] = size;
        return palette;
    };
    lib.exports.free_computed_palette = (p, n) => { frees++; H.check(p === palette, 25); lib.free(3 * n, p, 73); };
    const w = await startWorker(lib);
    let thrown = false;
    try {
        await w.worker.onRequest(6, { method: 'computePalette', args: [img.array, img.width, img.height, min, max, bound] });
    } catch (e) {
        thrown = true;
    }
    H.check(calls === 1, 4);
    H.check(thrown === fails || (fails && w.errors.length === 1), 5);
    H.check(frees === (fails ? 0 : 1), 26);
    if (!fails) {
        const got = checkReturned(w, img, 6);
        H.check(got.length === size, 27);
        for (let i = 0; i < size; i++) {
            H.check(got[i].length === 3, 28);
            for (let j = 0; j < 3; j++) H.check(got[i][j] === colors[i][j], 29);
        }
    }
    H.check(lib.live.size === 0, 7);
    H.reach(fails ? 2 : 1);
};

function symbolicPalette(n) {
    const palette = [];
    for (let i = 0; i < n; i++) palette.push([H.int(1000 + 3 * i, 0, 255), H.int(1001 + 3 * i, 0, 255), H.int(1002 + 3 * i, 0, 255)]);
    return palette;
}

function checkPalette(lib, p, palette) {
    const b = lib.read(p, 3 * palette.length);
    for (let i = 0; i < palette.length; i++) for (let j = 0; j < 3; j++) H.check(b[3 * i + j] === palette[i][j], 30);
}

// createDecomposedImage with kase / 4 colours; kase & 1: memory moves, kase & 2: trap
globalThis.h_js_decompose = async function (kase) {
    const lib = fakeLibrary(kase % 2 === 1), fails = kase % 4 >= 2;
    const palette = symbolicPalette(count(Math.floor(kase / 4)));
    const weights = H.int(900, -2147483648, 4294967295), result = H.int(901, -2147483648, 4294967295);
    let calls = 0;
    lib.exports.create_decomposed_image = (ptr, n, p) => {
        calls++;
        H.check(ptr === weights, 31);
        H.check(n === palette.length, 32);
        checkPalette(lib, p, palette);
        if (kase % 2 === 1) lib.memory.grow(1);
        if (fails) throw new Error('trap');
        return result;
    };
    const w = await startWorker(lib);
    let thrown = false;
    try {
        await w.worker.onRequest(7, { method: 'createDecomposedImage', args: [weights, palette] });
    } catch (e) {
        thrown = true;
    }
    H.check(calls === 1, 4);
    H.check(lib.live.size === 0, 7);
    if (fails) H.check(thrown || w.errors.length === 1, 5);
    else {
        H.check(!thrown, 5);
        H.check(w.sent.length + w.errors.length === 1, 33);
        // a palette the library rejects (null) is an error
        if (w.sent.length === 1) {
            H.check(result !== 0, 34);
            H.check(w.sent[0].id === 7, 12);
            H.check(w.sent[0].payload === result, 35);
        } else {
            H.check(result === 0, 36);
            H.check(w.errors[0].id === 7, 37);
        }
    }
    H.reach(fails ? 2 : 1);
};

// freeImageWeights, freeDecomposedImage, unknown methods
globalThis.h_js_free = async function (kase) {
    const lib = fakeLibrary(false);
    const ptr = H.int(900, -2147483648, 4294967295);
    const freed = [[], []];
    lib.exports.free_image_weights = p => { freed[0].push(p); };
    lib.exports.free_decomposed_image = p => { freed[1].push(p); };
    const w = await startWorker(lib);
    const method = ['freeImageWeights', 'freeDecomposedImage', 'freeEverything', '', 'toString'][kase];
    await w.worker.onRequest(8, { method, args: [ptr] });
    H.check(freed[0].length === (kase === 0 ? 1 : 0), 40);
    H.check(freed[1].length === (kase === 1 ? 1 : 0), 41);
    if (kase < 2) {
        H.check(freed[kase][0] === ptr, 42);
        H.check(w.sent.length === 1 && w.errors.length === 0, 43);
        H.check(w.sent[0].id === 8, 12);
    } else {
        H.check(w.sent.length === 0 && w.errors.length === 1, 44);
        H.check(w.errors[0].id === 8, 37);
    }
    H.reach(1);
};

function checkBlob(w, id, width, height, pixel) {
    H.check(w.sent.length === 1, 10);
    H.check(w.errors.length === 0, 11);
    H.check(w.sent[0].id === id, 12);
    const blob = w.sent[0].payload;
    H.check(blob.width === width && blob.height === height, 50);
    H.check(blob.image.width === width && blob.image.height === height, 51);
    H.check(blob.at[0] === 0 && blob.at[1] === 0, 52);
    const d = blob.image.data;
    H.check(d.length === 4 * width * height, 53);
    for (let i = 0; i < width * height; i++) {
        for (let j = 0; j < 3; j++) H.check(d[4 * i + j] === pixel(i, j), 54);
        H.check(d[4 * i + 3] === 255, 55);
    }
}

// reconstructImage: kase % 8 size, (kase / 8) % 4: 0 success, 1 failure, 2 trap; / 32: colours
globalThis.h_js_reconstruct = async function (kase) {
    const lib = fakeLibrary(kase % 2 === 1);
    const [width, height] = SIZES[kase % 8], how = Math.floor(kase / 8) % 4;
    const palette = symbolicPalette(count(Math.floor(kase / 32)));
    const decomposed = H.int(900, -2147483648, 4294967295);
    const pixels = [];
    for (let i = 0; i < 3 * width * height; i++) pixels.push(H.int(i, 0, 255));
    let calls = 0;
    lib.exports.get_decomposed_image_width = p => { H.check(p === decomposed, 61); return width; };
    lib.exports.get_decomposed_image_height = p => { H.check(p === decomposed, 62); return height; };
    lib.exports.reconstruct_image = (d, p, out) => {
        calls++;
        H.check(d === decomposed, 63);
        checkPalette(lib, p, palette);
        H.check(lib.has(out, 3 * width * height), 64);
        if (kase % 2 === 1) lib.memory.grow(1);
        if (how === 2) throw new Error('trap');
        if (how === 1) return 0;
        const mem = lib.bytes();
        for (let i = 0; i < pixels.length; i++) mem[out + i] = pixels[i];
        return 1;
    };
    const w = await startWorker(lib);
    let thrown = false;
    try {
        await w.worker.onRequest(9, { method: 'reconstructImage', args: [decomposed, palette] });
    } catch (e) {
        thrown = true;
    }
    H.check(calls === 1, 4);
    if (how === 2) H.check(thrown || w.errors.length === 1, 5);
    else if (how === 1) H.check(w.sent.length === 0 && w.errors.length === 1 && w.errors[0].id === 9, 65);
    else checkBlob(w, 9, width, height, (i, j) => pixels[3 * i + j]);
    H.check(lib.live.size === 0, 7);
    H.reach(1 + how);
};

// grayscaleImageChannel
globalThis.h_js_channel = async function (kase) {
    const lib = fakeLibrary(kase % 2 === 1);
    const [width, height] = SIZES[kase % 8], how = Math.floor(kase / 8) % 4;
    const decomposed = H.int(900, -2147483648, 4294967295), n = H.int(901, 0, 255);
    const pixels = [];
    for (let i = 0; i < width * height; i++) pixels.push(H.int(i, 0, 255));
    let calls = 0;
    lib.exports.get_decomposed_image_width = p => { H.check(p === decomposed, 61); return width; };
    lib.exports.get_decomposed_image_height = p => { H.check(p === decomposed, 62); return height; };
    lib.exports.grayscale_image_channel = (d, c, out) => {
        calls++;
        H.check(d === decomposed, 63);
        H.check(c === n, 66);
        H.check(lib.has(out, width * height), 64);
        if (kase % 2 === 1) lib.memory.grow(1);
        if (how === 2) throw new Error('trap');
        if (how === 1) return 0;
        const mem = lib.bytes();
        for (let i = 0; i < pixels.length; i++) mem[out + i] = pixels[i];
        return 1;
    };
    const w = await startWorker(lib);
    let thrown = false;
    try {
        await w.worker.onRequest(9, { method: 'grayscaleImageChannel', args: [decomposed, n] });
    } catch (e) {
        thrown = true;
    }
    H.check(calls === 1, 4);
    if (how === 2) H.check(thrown || w.errors.length === 1, 5);
    else if (how === 1) H.check(w.sent.length === 0 && w.errors.length === 1 && w.errors[0].id === 9, 65);
    else checkBlob(w, 9, width, height, (i, j) => pixels[i]);
    H.check(lib.live.size === 0, 7);
    H.reach(1 + how);
};
