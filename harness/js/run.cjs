// run.cjs ROOT HARNESS CASE INPUTS: runs a harness with concrete inputs (node --experimental-vm-modules)
const fs = require('fs'), path = require('path'), vm = require('vm');
const [root, harness, kase, file] = process.argv.slice(2);
const inputs = fs.readFileSync(file, 'utf8').split('\n').filter(l => l).map(l => Number(l.split(' ')[1]));
let next = 0, rejections = 0;
process.on('unhandledRejection', e => { rejections++; console.error('unhandled rejection:', e); });
const out = s => fs.writeSync(1, s + '\n');
const log = { log() {}, error() {}, warn() {}, info() {}, debug() {}, time() {}, timeEnd() {}, assert() {} };
const nodeConsole = console;
class Assume extends Error {}
function int(id, lo, hi) {
    if (next >= inputs.length) { out('NOINPUT'); process.exit(1); }
    const v = inputs[next++];
    if (v < lo || v > hi) { out('NOINPUT'); process.exit(1); }
    return v;
}
const mods = new Map();
async function load(file, imports) {
    file = path.normalize(file);
    if (mods.has(file)) return mods.get(file);
    const m = new vm.SourceTextModule(fs.readFileSync(file, 'utf8'), { identifier: file });
    mods.set(file, m);
    await m.link(async (name, from) => {
        if (name.startsWith('.')) {
            let f = path.join(path.dirname(from.identifier), name);
            if (!fs.existsSync(f)) f += '.js';
            if (mods.has(f)) return mods.get(f);
            const d = new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { identifier: f });
            mods.set(f, d);
            return d;
        }
        const o = imports[name];
        return new vm.SyntheticModule(Object.keys(o), function () { for (const k in o) this.setExport(k, o[k]); });
    });
    return m;
}
globalThis.H = {
    int, choose: int,
    text(id, n) { let s = ''; for (let i = 0; i < n; i++) s += String.fromCharCode(int(id + i, 0, 65535)); return s; },
    assume(c) { if (!c) { out('ASSUME'); process.exit(0); } },
    check(c, id) { if (!c) out('CHECK ' + id); },
    reach(id) {}, obs(id, v) { out('OBS ' + id + ' ' + Number(v)); },
    source: f => fs.readFileSync(path.join(root, f), 'utf8'),
    load: async (f, imports) => { const m = await load(path.join(root, f), imports); await m.evaluate(); },
    rejections: () => rejections,
    isBuffer: b => b instanceof ArrayBuffer,
    and: (...a) => a.every(Boolean), or: (...a) => a.some(Boolean),
    same: (a, b) => typeof a == 'string' && a === b,
    inRange: (v, a, b) => v >= a && v <= b,
};
Object.defineProperty(globalThis, 'console', { value: log, configurable: true, writable: true });
for (const f of fs.readdirSync(__dirname).filter(f => f.endsWith('.js')).sort())
    vm.runInThisContext(fs.readFileSync(path.join(__dirname, f), 'utf8'), { filename: f });
(async () => {
    try {
        await globalThis[harness](Number(kase));
    } catch (e) {
        nodeConsole.error(e);
        out('THROWN ' + e);
        process.exit(2);
    }
    out('DONE');
    process.exit(0);
})();
setTimeout(() => {}, 1e8).unref();
process.on('exit', c => { if (c === 13) process.exitCode = 3; });
