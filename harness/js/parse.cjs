// parse.cjs FILE...: the ESTree syntax trees as one JSON object
const fs = require('fs');
let acorn;
for (const p of ['/opt/veriftools/node/node_modules/acorn', 'acorn']) { try { acorn = require(p); break; } catch (e) {} }
const out = {};
for (const f of process.argv.slice(2)) {
    const text = fs.readFileSync(f, 'utf8');
    try {
        out[f] = { ast: acorn.parse(text, { ecmaVersion: 'latest', sourceType: 'module', locations: true }) };
    } catch (e) {
        if (!(e instanceof SyntaxError)) throw e;
        out[f] = { error: String(e) };
    }
}
process.stdout.write(JSON.stringify(out, (k, v) => k === 'end' || k === 'start' ? undefined : typeof v === 'bigint' ? null : v));
