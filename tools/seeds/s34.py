ID = 's34-js-seed-capped'
PROP = 'C16'
EDITS = [('src/jswrapper/getRandomSeed.js', "    var bytes = new Uint8Array(size);\n", "    // getRandomValues refuses more than 65536 bytes at a time\n    var bytes = new Uint8Array(Math.min(size, 65536));\n")]
NEEDS = 'a request for more than 65536 bytes'
BREAKS = 'the bytes after the 65536th are not random (undefined, stored as zero) instead of an error being raised'
DEMO_SH = r'''#!/bin/bash
# Runs getRandomSeed.js under node with a recording Uint8Vector.
D=$(cd "$(dirname "$0")" && pwd)
timeout 60 node -e '
const fs = require("fs");
globalThis.crypto || (globalThis.crypto = require("crypto").webcrypto);
const Module = {Uint8Vector: class { constructor() { this.a = []; } push_back(x) { this.a.push(x & 255); } }};
new Function("Module", fs.readFileSync("src/jswrapper/getRandomSeed.js", "utf8"))(Module);
let bad = 0;
for (const n of [1, 48, 65536, 65537, 70000]) {
    let v = null;
    try { v = Module.getRandomSeed(n).a; } catch (e) { continue; }
    if (v.length !== n || (n > 65600 && v.slice(65536).every(x => x === 0))) { console.log(n + ": tail not random"); bad = 1; }
}
process.exit(bad);
'
'''
