// Drives the browser bridge: one JSON document per line in (fd 0), one out (fd 3).
// usage: node bridge.js topolith.wasm wasm_exec.js
const fs = require("fs");
globalThis.fs = fs;
globalThis.path = require("path");
require(process.argv[3]);
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let exited = null;
async function fresh() {
	delete globalThis.topolithSend;
	const go = new Go();
	const state = { exited: false };
	go.exit = (code) => { state.exited = true; state.code = code; };
	const instance = await WebAssembly.instantiate(module_, go.importObject);
	go.run(instance).then(() => { state.exited = true; }, (e) => { state.exited = true; state.err = String(e); });
	for (let i = 0; i < 500 && typeof globalThis.topolithSend !== "function"; i++) {
		await new Promise((r) => setTimeout(r, 2));
	}
	exited = state;
	return typeof globalThis.topolithSend === "function";
}
function send(o) {
	const b = Buffer.from(JSON.stringify(o) + "\n");
	for (let i = 0; i < b.length;) {
		try { i += fs.writeSync(3, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; }
	}
}
const special = { "undefined": undefined, "null": null, "number": 42, "object": {}, "array": [1], "true": true, "function": () => 1, "nan": NaN };
async function main() {
	const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
	for await (const line of rl) {
		const q = JSON.parse(line);
		if (q.op === "new") {
			send({ ok: await fresh() });
			continue;
		}
		const args = q.op === "special" ? q.args.map((a) => special[a]) : q.args;
		const r = {};
		try {
			const v = globalThis.topolithSend(...args);
			r.type = typeof v;
			if (typeof v === "string") r.reply = v;
		} catch (e) {
			r.thrown = String(e);
		}
		await new Promise((r) => setImmediate(r));
		r.exited = exited.exited;
		send(r);
	}
}
main().then(() => process.exit(0), (e) => { console.error(e); process.exit(1); });
