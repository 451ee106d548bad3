// dumps the syntax tree of JavaScript files as JSON (parsing only; nothing is executed)
const ts = require(process.env.VSA_TS || '/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const NAME = {};
for (const k of Object.keys(ts.SyntaxKind)) { const v = ts.SyntaxKind[k]; if (typeof v === 'number' && (NAME[v] === undefined || /^(First|Last|Jsdoc)/.test(NAME[v])) ) { if (NAME[v] === undefined || !/^(First|Last)/.test(k)) NAME[v] = k; } }
function dump(n, sf) {
    const o = { k: NAME[n.kind], line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1 };
    for (const key of Object.keys(n)) {
        if (['parent', 'flowNode', 'pos', 'end', 'flags', 'modifierFlagsCache', 'transformFlags', 'id', 'kind', 'symbol', 'locals', 'nextContainer', 'jsDoc', 'jsDocCache', 'emitNode', 'original', 'localSymbol', 'endFlowNode', 'returnFlowNode'].includes(key)) continue;
        const v = n[key];
        if (v === undefined || v === null) continue;
        if (Array.isArray(v)) o[key] = v.map(x => x && x.kind !== undefined ? dump(x, sf) : x);
        else if (typeof v === 'object') { if (v.kind !== undefined) o[key] = dump(v, sf); }
        else o[key] = v;
    }
    if (typeof o.operator === 'number') o.operator = NAME[o.operator];
    if (o.kind !== undefined) delete o.kind;
    return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
    const sf = ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    out[f] = { errors: (sf.parseDiagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')), statements: sf.statements.map(s => dump(s, sf)) };
}
process.stdout.write(JSON.stringify(out));
