// C23, the page: a small document built from the real index.html, and a stand-in for the worker

function matches(e, sel) {
    if (sel[0] === '#') return e.id === sel.slice(1);
    if (sel[0] === '.') return (' ' + (e.className || '') + ' ').includes(' ' + sel.slice(1) + ' ');
    const m = sel.match(/^([a-zA-Z]*)\[([a-z]+)=["']?([^"'\]]*)["']?\]$/);
    if (m) return (m[1] === '' || e.tagName === m[1].toUpperCase()) && e[m[2]] === m[3];
    return e.tagName === sel.toUpperCase();
}

class FakeElement {
    constructor(tag) {
        this.tagName = tag.toUpperCase(); this.kids = []; this.parentElement = null; this.listeners = []; this.style = {};
        this.id = ''; this.name = ''; this.disabled = false; this.attributes = {};
        if (tag === 'input') this.value = '';
        if (tag === 'img') this.source = '';
    }
    get src() { return this.source; }
    set src(v) { this.source = v; if (this.onsource) this.onsource(v); }
    get children() {
        const list = this.kids.slice();
        for (const k of this.kids) {
            if (k.name !== '' && list[k.name] === undefined) list[k.name] = k;
            if (k.id !== '' && list[k.id] === undefined) list[k.id] = k;
        }
        list.item = i => list[i] === undefined ? null : list[i];
        list.namedItem = n => list[n] === undefined ? null : list[n];
        return list;
    }
    get childElementCount() { return this.kids.length; }
    get parentNode() { return this.parentElement; }
    get firstElementChild() { return this.kids.length ? this.kids[0] : null; }
    get lastElementChild() { return this.kids.length ? this.kids[this.kids.length - 1] : null; }
    sibling(d) {
        if (!this.parentElement) return null;
        const k = this.parentElement.kids, i = k.indexOf(this) + d;
        return i >= 0 && i < k.length ? k[i] : null;
    }
    get nextElementSibling() { return this.sibling(1); }
    get previousElementSibling() { return this.sibling(-1); }
    appendChild(c) { if (c.parentElement) c.remove(); this.kids.push(c); c.parentElement = this; return c; }
    append(...l) { for (const c of l) this.appendChild(c); }
    removeChild(c) {
        const i = this.kids.indexOf(c);
        if (i < 0) throw new Error('NotFoundError');
        this.kids.splice(i, 1); c.parentElement = null;
        return c;
    }
    remove() { if (this.parentElement) this.parentElement.removeChild(this); }
    replaceChildren(...l) { for (const c of this.kids.slice()) this.removeChild(c); this.append(...l); }
    insertBefore(c, ref) {
        if (ref === null) return this.appendChild(c);
        if (c.parentElement) c.remove();
        this.kids.splice(this.kids.indexOf(ref), 0, c); c.parentElement = this;
        return c;
    }
    cloneNode(deep) {
        const e = new FakeElement(this.tagName.toLowerCase());
        for (const k of ['id', 'name', 'className', 'type', 'value', 'source', 'disabled']) if (this[k] !== undefined) e[k] = this[k];
        e.style = { ...this.style };
        if (deep) for (const c of this.kids) e.appendChild(c.cloneNode(true));
        return e;
    }
    addEventListener(type, f) { this.listeners.push([type, f]); }
    removeEventListener(type, f) { this.listeners = this.listeners.filter(l => l[0] !== type || l[1] !== f); }
    fire(type) {
        const event = { type, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} };
        if (typeof this['on' + type] === 'function') this['on' + type](event);
        for (const [t, f] of this.listeners.slice()) if (t === type) f.call(this, event);
    }
    dispatchEvent(e) { this.fire(e.type); return true; }
    click() { if (!this.disabled) this.fire('click'); }
    setAttribute(k, v) { this[k === 'class' ? 'className' : k] = v; }
    getAttribute(k) { const v = this[k === 'class' ? 'className' : k]; return v === undefined ? null : v; }
    removeAttribute(k) { if (k === 'disabled') this.disabled = false; else delete this[k]; }
    all() { let l = []; for (const c of this.kids) l = l.concat([c], c.all()); return l; }
    querySelectorAll(sel) { return this.all().filter(e => matches(e, sel)); }
    querySelector(sel) { const l = this.querySelectorAll(sel); return l.length ? l[0] : null; }
}

const VOID = ['meta', 'link', 'input', 'br', 'hr'];

function parseHtml(text) {
    const root = new FakeElement('#document');
    let at = root, p = 0;
    while (true) {
        const a = text.indexOf('<', p);
        if (a < 0) break;
        const b = text.indexOf('>', a);
        let tag = text.slice(a + 1, b);
        p = b + 1;
        if (tag[0] === '!') continue;
        if (tag[0] === '/') {
            const name = tag.slice(1).trim().toUpperCase();
            let e = at;
            while (e !== root && e.tagName !== name) e = e.parentElement;
            if (e !== root) at = e.parentElement;
            continue;
        }
        const selfClosing = tag[tag.length - 1] === '/';
        if (selfClosing) tag = tag.slice(0, -1);
        const name = tag.split(' ')[0].split('\n')[0].toLowerCase();
        const e = new FakeElement(name);
        for (const m of tag.slice(name.length).matchAll(/([a-zA-Z-]+)=("([^"]*)"|'([^']*)')/g)) {
            const v = m[3] !== undefined ? m[3] : m[4];
            if (m[1] !== 'style') e.setAttribute(m[1], v);
        }
        if (/ disabled$| disabled /.test(tag)) e.disabled = true;
        at.appendChild(e);
        if (!selfClosing && !VOID.includes(name)) at = e;
    }
    return root;
}

async function settle() {
    for (let i = 0; i < 3; i++) await new Promise(r => setTimeout(r, 0));
}

// pictures by the text of their URL
function startPage(options) {
    const page = { queue: [], log: [], pictures: new Map(), urls: new Map(), next: 1, weights: new Map(), decomposed: new Map(), palettes: 0, reconstructions: 0, rejected: 0, options, loads: 0, errors: 0 };
    page.document = parseHtml(H.source('image-palette-recoloring-web/src/html/index.html'));
    const doc = page.document;
    doc.getElementById = id => doc.querySelector('#' + id);
    doc.createElement = tag => new FakeElement(tag);
    doc.addEventListener = (t, f) => { window.addEventListener(t, f); };
    doc.body = doc.querySelector('body');
    doc.readyState = 'loading';
    globalThis.document = doc;
    const win = new FakeElement('window');
    globalThis.window = win;
    win.document = doc;
    const pixels = src => {
        const pic = page.pictures.get(src);
        return pic;
    };
    globalThis.Image = class {
        set src(v) { this.source = v; const p = pixels(v); this.width = p ? p.width : 0; this.height = p ? p.height : 0; this.naturalWidth = this.width; this.naturalHeight = this.height; }
        get src() { return this.source; }
        addEventListener() {}
        async decode() {}
    };
    globalThis.OffscreenCanvas = class {
        constructor(w, h) { this.width = w; this.height = h; }
        getContext() {
            return {
                drawImage: (img, x, y) => { this.drawn = pixels(img.src); H.check(x === 0 && y === 0, 101); },
                getImageData: (x, y, w, h) => {
                    const d = new Uint8ClampedArray(4 * w * h);
                    if (this.drawn && w === this.drawn.width && h === this.drawn.height) for (let i = 0; i < d.length; i++) d[i] = this.drawn.data[i];
                    return { data: d, width: w, height: h };
                },
            };
        }
    };
    globalThis.URL = {
        createObjectURL(blob) { const u = 'blob:' + page.next++; page.urls.set(u, blob); if (blob.picture) page.pictures.set(u, blob.picture); return u; },
        revokeObjectURL(u) { H.check(page.urls.has(u), 102); page.urls.delete(u); },
    };
    globalThis.FileReader = class {};
    globalThis.fetch = async name => ({ blob: async () => ({ picture: page.example }) });
    class Thread {
        constructor(url) { page.threadUrl = url; }
        sendRequest(payload, transfer) {
            const copy = structuredClone(payload, { transfer: transfer || [] });
            return new Promise((resolve, reject) => { page.queue.push({ method: copy.method, args: copy.args, resolve, reject }); });
        }
    }
    page.imports = {
        "async-thread-worker": { Thread },
        "@bjorn3/browser_wasi_shim": { WASI: class {}, File: class {}, OpenFile: class {}, PreopenDirectory: class {} },
    };
    page.el = id => doc.getElementById(id);
    page.wrapper = () => page.el('palette-wrapper');
    page.field = (i, name) => page.wrapper().children[i].children[name];
    return page;
}

function samePicture(page, array, width, height) {
    const pic = page.pictures.get(page.el('src-img').src);
    H.check(width === pic.width && height === pic.height, 110);
    H.check(array.length === 4 * width * height, 111);
    for (let i = 0; i < array.length; i++) H.check(array[i] === pic.data[i], 112);
}

// the worker takes one message
function handle(page, strict) {
    const r = page.queue.shift();
    page.log.push(r.method);
    const a = r.args;
    // one request that is not a release fails
    if (page.failAt !== undefined && !r.method.startsWith('free') && page.failAt-- === 0) {
        for (const [p, live] of [[a[0], r.method === 'createDecomposedImage' ? page.weights : page.decomposed]])
            if (r.method !== 'createImageWeights' && r.method !== 'computePalette') H.check(live.has(p), 129);
        page.errors++;
        r.reject('trap');
        return;
    }
    if (r.method === 'createImageWeights') {
        if (strict) samePicture(page, a[0], a[1], a[2]);
        const p = page.next++;
        page.weights.set(p, 1);
        r.resolve([p, a[0]]);
    } else if (r.method === 'computePalette') {
        if (strict) samePicture(page, a[0], a[1], a[2]);
        page.asked = [a[3], a[4], a[5]];
        const palette = page.options.palette(page.palettes++);
        page.palette = palette.map(c => c.slice());
        r.resolve([palette, a[0]]);
    } else if (r.method === 'createDecomposedImage') {
        H.check(page.weights.has(a[0]), 120);
        if (page.options.reject && page.options.reject(a[1])) { page.errors++; r.reject('The palette is not usable'); return; }
        const p = page.next++;
        page.decomposed.set(p, a[1]);
        r.resolve(p);
    } else if (r.method === 'grayscaleImageChannel') {
        H.check(page.decomposed.has(a[0]), 121);
        if (page.decomposed.has(a[0])) H.check(a[1] >= 0 && a[1] < page.decomposed.get(a[0]).length, 122);
        r.resolve({ channel: a[1], of: a[0] });
    } else if (r.method === 'reconstructImage') {
        H.check(page.decomposed.has(a[0]), 123);
        if (page.decomposed.has(a[0])) H.check(a[1].length === page.decomposed.get(a[0]).length, 124);
        page.reconstructions++;
        r.resolve({ reconstruction: a[1], of: a[0] });
    } else if (r.method === 'freeImageWeights') {
        H.check(page.weights.has(a[0]), 125);
        page.weights.delete(a[0]);
        r.resolve('');
    } else if (r.method === 'freeDecomposedImage') {
        H.check(page.decomposed.has(a[0]), 126);
        page.decomposed.delete(a[0]);
        r.resolve('');
    } else H.check(false, 127);
}

async function deliver(page, n, strict) {
    for (let i = 0; i < n && page.queue.length > 0; i++) { handle(page, strict); await settle(); }
}

// everything that is on its way arrives: worker messages and loaded pictures
async function drain(page, strict) {
    for (let i = 0; i < 200; i++) {
        await settle();
        if (page.loads > 0) { page.loads--; page.el('src-img').fire('load'); }
        else if (page.queue.length > 0) handle(page, strict);
        else return;
    }
    H.check(false, 128);
}

const PICTURES = [
    { width: 2, height: 1, data: [1, 2, 3, 255, 40, 50, 60, 255] },
    { width: 1, height: 2, data: [9, 8, 7, 255, 6, 5, 4, 255] },
];

async function openPage(options) {
    const page = startPage(options);
    page.example = PICTURES[0];
    const src = page.el('src-img');
    src.onsource = () => { page.loads = 1; };
    await H.load('image-palette-recoloring-web/src/js/index.js', page.imports);
    await settle();
    window.fire('load');
    await settle();
    return page;
}

// at rest the page shows the colours of its fields and owns one of everything
function checkRest(page) {
    const kids = page.wrapper().children;
    H.check(page.queue.length === 0 && page.loads === 0, 130);
    H.check(page.weights.size === 1, 131);
    H.check(page.decomposed.size === 1, 132);
    const shown = page.urls.get(page.el('dst-img').src);
    H.check(shown !== undefined, 133);
    if (shown) {
        H.check(page.decomposed.has(shown.of), 134);
        H.check(shown.reconstruction.length === kids.length, 135);
    }
    for (let i = 0; i < kids.length; i++) {
        const img = page.urls.get(kids[i].children['palette-img'].src);
        H.check(img !== undefined, 136);
        if (img) H.check(img.channel === i && page.decomposed.has(img.of), 137);
    }
    // no URL is kept that is not shown
    H.check(page.urls.size === 2 + kids.length, 138);
    H.check(!page.el('recompute-output-button').disabled && !page.el('recompute-palette-button').disabled && !page.el('src-img-picker').disabled, 139);
    H.check(page.el('dst-spinner').style.visibility === 'hidden', 140);
    H.check(H.rejections() <= page.errors, 141);
}

function fixedPalette(n, k) {
    const p = [];
    for (let i = 0; i < n; i++) p.push([10 * i + k, 255 - 20 * i, (i * 77 + 5 * k) % 256]);
    return p;
}

function hex(n) { const d = '0123456789abcdef'; return d[Math.floor(n / 16)] + d[n % 16]; }
function colorText(c) { return '#' + hex(c[0]) + hex(c[1]) + hex(c[2]); }

// any text of kase % 16 units in a text field; / 16: source or target
globalThis.h_js_text = async function (kase) {
    const page = await openPage({ palette: k => fixedPalette(2, k) });
    await drain(page, true);
    const name = kase < 16 ? 'palette-src-color' : 'palette-dst-color';
    const text = H.text(0, kase % 16);
    const before = page.field(1, name).value, other = page.field(0, name).value;
    page.field(1, name + '-txt').value = text;
    page.field(1, name + '-txt').fire('input');
    const now = page.field(1, name).value;
    let valid = text.length === 7;
    if (valid) {
        const c = [];
        for (let i = 0; i < 7; i++) c.push(text.charCodeAt(i));
        const parts = [c[0] === 35];
        for (let i = 1; i < 7; i++) parts.push(H.or(H.inRange(c[i], 48, 57), H.inRange(c[i], 65, 70), H.inRange(c[i], 97, 102)));
        valid = H.and(...parts);
    }
    if (valid) { H.check(H.or(H.same(now, text), H.same(now, text.toLowerCase())), 150); H.reach(2); }
    else { H.check(H.same(now, before), 151); H.reach(1); }
    H.check(H.same(page.field(1, name + '-txt').value, text), 152);
    H.check(page.field(0, name).value === other, 153);
    H.check(page.queue.length === 0, 154);
};

// the colour pickers set the text
globalThis.h_js_picker = async function (kase) {
    const page = await openPage({ palette: k => fixedPalette(3, k) });
    await drain(page, true);
    const name = kase < 3 ? 'palette-src-color' : 'palette-dst-color';
    const text = '#' + H.text(0, 6);
    page.field(kase % 3, name).value = text;
    page.field(kase % 3, name).fire('input');
    page.field(kase % 3, name).fire('change');
    H.check(H.same(page.field(kase % 3, name + '-txt').value, text), 155);
    for (let i = 0; i < 3; i++) if (i !== kase % 3) H.check(page.field(i, name + '-txt').value === page.field(i, name).value, 156);
    H.reach(1);
};

// a palette with any colour in one place reaches the fields and comes back from them as it was
globalThis.h_js_palette_fields = async function (kase) {
    const n = 1 + Math.floor(kase / 4) % 6, at = kase % 4 % n;
    const free = [H.int(0, 0, 255), H.int(1, 0, 255), H.int(2, 0, 255)];
    const page = await openPage({ palette: k => { const p = fixedPalette(n, k); p[at] = free.slice(); return p; } });
    await drain(page, true);
    H.check(page.wrapper().children.length === n, 160);
    for (let i = 0; i < n; i++) {
        const texts = ['palette-src-color', 'palette-src-color-txt', 'palette-dst-color', 'palette-dst-color-txt'].map(k => page.field(i, k).value);
        for (const t of texts) {
            H.check(t.length === 7 && H.same(t[0], '#'), 161);
            for (let j = 0; j < 3; j++) {
                let v = 0;
                for (let k = 1; k < 3; k++) {
                    const c = t.charCodeAt(2 * j + k);
                    const digit = c < 58;
                    H.check(digit ? H.inRange(c, 48, 57) : H.inRange(c, 97, 102), 162);
                    v = 16 * v + (digit ? c - 48 : c - 87);
                }
                H.check(v === (i === at ? free[j] : fixedPalette(n, 0)[i][j]), 163);
            }
        }
    }
    checkRest(page);
    const got = Array.from(page.decomposed.values())[0], out = page.urls.get(page.el('dst-img').src).reconstruction;
    for (const list of [got, out]) {
        H.check(list.length === n, 164);
        for (let i = 0; i < n; i++) for (let j = 0; j < 3; j++) H.check(list[i][j] === (i === at ? free[j] : fixedPalette(n, 0)[i][j]), 165);
    }
    H.reach(1);
};

// a changed target colour is the one the picture is rebuilt with; a changed source colour the one it is decomposed with
globalThis.h_js_edit = async function (kase) {
    const page = await openPage({ palette: k => fixedPalette(3, k) });
    await drain(page, true);
    const name = kase % 2 ? 'palette-src-color' : 'palette-dst-color', at = Math.floor(kase / 2) % 3;
    // two digits are free
    const u = [H.choose(0, 0, 2), H.int(1, 0, 15), H.int(2, 0, 15)];
    const digit = v => v < 10 ? String.fromCharCode(v + 48) : String.fromCharCode(v + (kase >= 6 ? 55 : 87));
    const parts = ['1f', 'A0', '7c'];
    parts[u[0]] = digit(u[1]) + digit(u[2]);
    const want = [0x1f, 0xa0, 0x7c];
    want[u[0]] = 16 * u[1] + u[2];
    page.field(at, name + '-txt').value = '#' + parts[0] + parts[1] + parts[2];
    page.field(at, name + '-txt').fire('input');
    page.el('recompute-output-button').click();
    await drain(page, true);
    checkRest(page);
    const got = Array.from(page.decomposed.values())[0], out = page.urls.get(page.el('dst-img').src).reconstruction;
    for (let i = 0; i < 3; i++) for (let j = 0; j < 3; j++) {
        const old = fixedPalette(3, 0)[i][j];
        H.check(got[i][j] === (kase % 2 && i === at ? want[j] : old), 170);
        H.check(out[i][j] === (kase % 2 === 0 && i === at ? want[j] : old), 171);
    }
    H.reach(1);
};

// the settings reach the worker; the number of colours changes from one palette to the next
globalThis.h_js_settings = async function (kase) {
    const sizes = [4, 1 + kase];
    const page = await openPage({ palette: k => fixedPalette(sizes[k], k) });
    await drain(page, true);
    H.check(page.asked[0] === 4 && page.asked[1] === 10 && page.asked[2] === 0, 180);
    const min = H.text(0, 2), max = H.text(2, 1 + kase % 3);
    let a = 0, b = 0;
    for (let i = 0; i < min.length; i++) { const c = min.charCodeAt(i); H.assume(H.inRange(c, 48, 57)); a = 10 * a + (c - 48); }
    for (let i = 0; i < max.length; i++) { const c = max.charCodeAt(i); H.assume(H.inRange(c, 48, 57)); b = 10 * b + (c - 48); }
    page.el('min-palette-cnt').value = min;
    page.el('max-palette-cnt').value = max;
    page.el('palette-err-limit').value = '0.25';
    page.el('recompute-palette-button').click();
    await drain(page, true);
    H.check(page.asked[0] === a && page.asked[1] === b && page.asked[2] === 0.25, 181);
    H.check(page.wrapper().children.length === sizes[1], 182);
    for (let i = 0; i < sizes[1]; i++) for (const k of ['palette-src-color', 'palette-src-color-txt', 'palette-dst-color', 'palette-dst-color-txt'])
        H.check(page.field(i, k).value === colorText(fixedPalette(sizes[1], 1)[i]), 183);
    checkRest(page);
    H.reach(1);
};

// users act at any moment of the conversation with the worker.
// kase % 4: number of actions, + 4: from the start (before the first picture is there)
globalThis.h_js_actions = async function (kase) {
    const bad = c => c.some(x => x[0] === 0xba && x[1] === 0xdb && x[2] === 0xad);
    const page = await openPage({ palette: k => fixedPalette(2 + k % 2, k), reject: bad });
    const early = Math.floor(kase / 4) % 2 === 1;
    if (!early) await drain(page, false);
    for (let i = 0; i < kase % 4; i++) {
        const wait = H.choose(10 + i, 0, early || i > 0 ? 9 : 0);
        if (page.loads > 0 && wait > 0) { page.loads--; page.el('src-img').fire('load'); await settle(); }
        await deliver(page, wait, false);
        const action = H.choose(20 + i, 0, 4);
        if (action === 0) page.el('recompute-output-button').click();
        if (action === 1) page.el('recompute-palette-button').click();
        if (action === 2) {
            const picker = page.el('src-img-picker');
            if (!picker.disabled) { picker.files = [{ picture: PICTURES[1] }]; picker.fire('change'); }
        }
        if (action >= 3 && page.wrapper().children.length > 0) {
            page.field(0, 'palette-src-color-txt').value = action === 3 ? '#010203' : '#BADBAD';
            page.field(0, 'palette-src-color-txt').fire('input');
            page.el('recompute-output-button').click();
        }
        await settle();
    }
    await drain(page, false);
    // back to a usable palette
    const colors = [];
    for (let i = 0; i < page.wrapper().children.length; i++) colors.push(page.field(i, 'palette-src-color').value);
    if (page.errors > 0) {
        page.el('recompute-palette-button').click();
        await drain(page, false);
    }
    checkRest(page);
    H.reach(1);
};

// three actions, queued behind each other, and one request fails.
// kase % 4: answers between the actions; + 4: from the start
globalThis.h_js_failures = async function (kase) {
    const page = await openPage({ palette: k => fixedPalette(2 + k % 2, k) });
    const early = kase >= 4;
    if (!early) await drain(page, false);
    page.failAt = H.choose(1, 0, 11);
    for (let i = 0; i < 3; i++) {
        if (page.loads > 0) { page.loads--; page.el('src-img').fire('load'); await settle(); }
        const action = H.choose(2 + i, 0, 2);
        if (action === 0) page.el('recompute-output-button').click();
        if (action === 1) page.el('recompute-palette-button').click();
        if (action === 2) {
            const picker = page.el('src-img-picker');
            if (!picker.disabled) { picker.files = [{ picture: PICTURES[1] }]; picker.fire('change'); }
        }
        await settle();
        await deliver(page, kase % 4, false);
    }
    await drain(page, false);
    page.failAt = undefined;
    H.check(page.weights.size <= 1, 190);
    H.check(page.decomposed.size <= 1, 191);
    H.check(H.rejections() <= page.errors, 141);
    const picker = page.el('src-img-picker');
    H.reach(picker.disabled ? 2 : 1);
    if (picker.disabled) return;
    picker.files = [{ picture: PICTURES[0] }];
    picker.fire('change');
    await drain(page, false);
    checkRest(page);
};
