// Opens the web page's code and types into its terminal: one JSON document per line in (fd 0), one out (fd 3).
// usage: node page.js bundle.js topolith.wasm wasm_exec.js
const fs = require("fs"), vm = require("vm");
globalThis.fs = fs;
globalThis.path = require("path");
require(process.argv[4]);
const script = new vm.Script(fs.readFileSync(process.argv[2], "utf8"), { filename: "page" });
const wasm = fs.readFileSync(process.argv[3]);
let unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(String(e)));
process.on("uncaughtException", (e) => unhandled.push(String(e)));
console.error = console.log = console.warn = () => {}; // the page may say what it likes there
globalThis.window = globalThis.self = globalThis;
const element = () => new Proxy({ style: {}, children: [] }, { get: (t, k) => (k in t ? t[k] : () => {}) });
globalThis.document = { getElementById: element, querySelector: element, createElement: element, addEventListener() {}, removeEventListener() {}, body: element(), head: element(), title: "" };
globalThis.addEventListener = globalThis.removeEventListener = () => {};
const compile = WebAssembly.compile(wasm);
const RealGo = globalThis.Go;
let page;

class OneGo extends RealGo {
	constructor() { super(); page.gos++; const p = page; this.exit = (c) => { p.exited = "exit " + c; }; }
	async run(i) { try { return await super.run(i); } catch (e) { page.exited = String(e); throw e; } }
}
globalThis.Go = OneGo;
WebAssembly.instantiateStreaming = async (source, imports) => {
	await (await source).arrayBuffer();
	return { module: await compile, instance: await WebAssembly.instantiate(await compile, imports) };
};
globalThis.fetch = (url) => {
	const p = page;
	p.fetches.push(String(url && url.url || url));
	return p.gate.then(() => {
		if (p.broken) throw new TypeError("Failed to fetch");
		return new Response(wasm, { status: 200, headers: { "Content-Type": "application/wasm" } });
	});
};
let real;
Object.defineProperty(globalThis, "topolithSend", {
	configurable: true,
	get() { return real && page && !page.hidden ? send : undefined; },
	set(f) { real = f; },
});
function send(...args) {
	const s = { args: args.map((a) => (typeof a === "string" ? a : "(" + typeof a + ")")), n: args.length };
	page.sends.push(s);
	if (page.fail) {
		const how = page.fail.shift();
		if (how === "throw") { s.how = how; throw new Error("the core is gone"); }
		if (how === "text") { s.how = how; return "no JSON"; }
		if (how === "nothing") { s.how = how; return undefined; }
		if (how === "half") { s.how = how; return '{"status": 200, "data"'; }
	}
	s.reply = real(...args);
	return s.reply;
}

const turn = () => new Promise((r) => setImmediate(r));
const wait = (ms) => new Promise((r) => setTimeout(r, ms));

async function open(q) {
	delete globalThis.theTerminals;
	real = undefined;
	unhandled = [];
	page = { gos: 0, fetches: [], sends: [], exited: "", broken: q.broken, hidden: false };
	page.gate = new Promise((r) => { page.release = r; });
	if (!q.late) page.release();
	script.runInThisContext();
	for (let i = 0; i < 1000; i++) {
		await wait(i < 20 ? 1 : 5);
		const t = (globalThis.theTerminals || [])[0];
		if (t && t.writes && (q.late || q.broken || real) && i > 3) break;
	}
	return look();
}

function look() {
	const ts = (globalThis.theTerminals || []).filter((t) => !t.gone);
	const t = ts[0];
	const sends = page.sends;
	page.sends = [];
	const r = { ok: !!t, terminals: ts.length, open: !!(t && t.open_), core: !!real, gos: page.gos, fetches: page.fetches.length, exited: page.exited, sends, unhandled };
	if (t) { r.rows = t.screen(page.mark || 0); r.col = t.col; page.mark = t.row; }
	return r;
}

async function quiet() {
	const t = globalThis.theTerminals[0];
	for (let n = -1, same = 0, i = 0; i < 600 && same < 3; i++) {
		await turn();
		if (t.writes === n) same++;
		else same = 0, n = t.writes;
	}
}

function out(o) {
	const b = Buffer.from(JSON.stringify(o) + "\n");
	for (let i = 0; i < b.length;) {
		try { i += fs.writeSync(3, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; }
	}
}

async function main() {
	const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
	for await (const line of rl) {
		const q = JSON.parse(line);
		if (q.op === "open") { out(await open(q)); continue; }
		if (q.op === "release") {
			page.release();
			for (let i = 0; i < 1000 && !real && !page.broken; i++) await wait(2);
			await quiet();
			out(look());
			continue;
		}
		const t = globalThis.theTerminals[0];
		page.fail = q.fail || [];
		for (const k of q.keys) {
			t.type(k);
			await turn();
		}
		await quiet();
		// A page that shows its answer a while later has time to do it.
		for (let i = 0; i < 400 && q.prompt && (!t.screen(t.row)[0].startsWith(q.prompt) || page.sends.length < q.sends); i++) await wait(5);
		out(look());
	}
}
main().then(() => process.exit(0), (e) => { process.stderr.write(String(e.stack) + "\n"); process.exit(1); });
