// Loads the parser as a browser would and answers texts, one JSON line each.
"use strict";
const fs = require("fs");
const path = require("path");
const dir = process.argv[2];
for (const [k, v] of Object.entries({
  require, fs, path, TextEncoder: require("util").TextEncoder, TextDecoder: require("util").TextDecoder,
})) {
  if (globalThis[k] === undefined) globalThis[k] = v;
}
require(path.join(dir, "wasm_exec.js"));
const go = new Go();
go.exit = (code) => { dead = "exit " + code; };
let dead = "";
let ready = false;
globalThis.notifyBrowser = () => { ready = true; };
const out = (v) => fs.writeSync(1, JSON.stringify(v) + "\n");
WebAssembly.instantiate(fs.readFileSync(path.join(dir, "aqlparse.wasm")), go.importObject).then((r) => {
  go.run(r.instance).then(() => { dead = dead || "the program ended"; }, (e) => { dead = String(e); });
  if (!ready || typeof globalThis.parseAQL !== "function") {
    out({ dead: dead || "parseAQL is not there" });
    process.exit(0);
  }
  out({ ready: true });
  let buf = "";
  process.stdin.setEncoding("utf8");
  process.stdin.on("data", (d) => {
    buf += d;
    for (let i = buf.indexOf("\n"); i >= 0; i = buf.indexOf("\n")) {
      const text = JSON.parse(buf.slice(0, i));
      buf = buf.slice(i + 1);
      let answer;
      try {
        const r = globalThis.parseAQL(text);
        answer = { result: r === undefined ? null : r, length: text.length, dead };
      } catch (e) {
        answer = { threw: String(e), dead };
      }
      out(answer);
    }
  });
  process.stdin.on("end", () => process.exit(0));
}, (e) => { out({ dead: String(e) }); process.exit(0); });
