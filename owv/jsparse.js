// reads JSON [text, ...] on stdin, writes JSON [{ast}|{error}, ...]
const acorn = require(process.argv[2]);
let s = '';
process.stdin.on('data', d => s += d).on('end', () => {
    const out = JSON.parse(s).map(t => {
        try {
            const ast = acorn.parse(t, { ecmaVersion: 'latest', sourceType: 'script', locations: true, allowAwaitOutsideFunction: true, allowReturnOutsideFunction: true });
            return { ast };
        } catch (e) { return { error: String(e) }; }
    });
    process.stdout.write(JSON.stringify(out, (k, v) => typeof v === 'bigint' ? { bigint: String(v) } : v instanceof RegExp ? undefined : (k === 'start' || k === 'end') && typeof v === 'number' ? undefined : v));
});
