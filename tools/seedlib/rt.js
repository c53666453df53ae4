// Runs the scripts that the runtime embeds in its sources, in a fresh realm; natives are supplied by the demonstration.
const fs = require('fs'), path = require('path'), vm = require('vm');
const REPO = process.cwd();
function sources(dir) {
    return fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)
        .flatMap(e => e.isDirectory() ? sources(path.join(dir, e.name)) : e.name.endsWith('.rs') ? [path.join(dir, e.name)] : []);
}
// text of the first raw string of fn `name` (all of them with all=true)
function script(name, all) {
    for (const f of sources(path.join(REPO, 'src'))) {
        const t = fs.readFileSync(f, 'utf8');
        const m = new RegExp('fn ' + name + '\\b').exec(t);
        if (!m) continue;
        const rest = t.slice(m.index);
        const stop = (/\n(pub |pub\(\w+\) )?(async )?(unsafe )?fn /.exec(rest.slice(3)) || { index: rest.length - 3 }).index + 3;
        const out = [...rest.slice(0, stop).matchAll(/r(#+)"([\s\S]*?)"\1/g)].map(x => x[2]);
        if (out.length) return all ? out : out.find(s => s.length > 60) || out[0];
    }
    throw new Error('no script in fn ' + name);
}
function context(fns, natives) {
    const c = vm.createContext({});
    vm.runInContext('globalThis.self = globalThis;', c);
    Object.assign(c, natives || {});
    for (const f of fns) {
        if (typeof f === 'function') f(c);
        else vm.runInContext(script(f), c, { filename: f });
    }
    c.$ = code => vm.runInContext(code, c);
    return c;
}
const WEB = ['setup_readable_stream', 'setup_blob', 'setup_form_data', 'setup_abort_controller', 'setup_structured_clone', 'setup_url_search_params',
    'setup_url', 'setup_headers', 'setup_request', 'setup_response'];
// settles within the given time or fails
function within(ms, p, what) {
    return Promise.race([p, new Promise((_, r) => setTimeout(() => r(new Error('timeout: ' + what)), ms))]);
}
function run(f) {
    f().then(() => { console.log('ok'); process.exit(0); }, e => { console.error(e && e.stack || e); process.exit(1); });
}
// natives of text_encoding.rs, by node's own codec
const text = {
    __nativeTextEncode: s => new TextEncoder().encode(String(s)),
};
module.exports = { script, context, WEB, within, run, text };
