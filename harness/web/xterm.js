// A terminal that keeps what is on its screen, of any width, and hands out what is typed.
export class Terminal {
	constructor(options) {
		this.options = options || {};
		this.rows_ = [[]];
		this.row = 0;
		this.col = 0;
		this.cols = 80;
		this.rows = 24;
		this.data = [];
		this.keys = [];
		this.writes = 0;
		this.pending = "";
		this.open_ = false;
		this.element = undefined;
		this.textarea = {};
		this.buffer = { active: { cursorX: 0, cursorY: 0 } };
		(globalThis.theTerminals = globalThis.theTerminals || []).push(this);
		const nothing = () => ({ dispose() {} });
		return new Proxy(this, { get: (t, k) => (k in t || typeof k === "symbol" || k === "then" ? t[k] : nothing) });
	}
	open(e) { this.open_ = !!e; this.element = e; }
	listen(list, f) {
		list.push(f);
		return { dispose() { const i = list.indexOf(f); if (i >= 0) list.splice(i, 1); } };
	}
	onData(f) { return this.listen(this.data, f); }
	onKey(f) { return this.listen(this.keys, f); }
	dispose() { this.gone = true; this.data.length = 0; this.keys.length = 0; }
	focus() {}
	clear() { this.rows_ = [this.rows_[this.row]]; this.row = 0; }
	reset() { this.rows_ = [[]]; this.row = this.col = 0; }
	writeln(s, f) { this.write(s + "\r\n", f); }
	input(s) { this.type(s); }
	paste(s) { this.type(s.replace(/\r?\n/g, "\r")); }
	type(s) {
		if (this.gone) return;
		if ([...s].length === 1) for (const f of [...this.keys]) f({ key: s, domEvent: { key: s === "\r" ? "Enter" : s === "\x7f" ? "Backspace" : s, preventDefault() {}, altKey: false, ctrlKey: false, metaKey: false } });
		for (const f of [...this.data]) f(s);
	}
	write(s, done) {
		this.writes++;
		if (typeof s !== "string") s = new TextDecoder().decode(s);
		s = this.pending + s;
		this.pending = "";
		for (let i = 0; i < s.length;) {
			if (s[i] === "\x1b") {
				const m = /^\x1b(?:\[([0-9;?]*)([@-~])|[^\[])/.exec(s.slice(i, i + 40));
				if (!m) { this.pending = s.slice(i); break; }
				i += m[0].length;
				if (m[2]) this.control(m[1], m[2]);
				continue;
			}
			const c = String.fromCodePoint(s.codePointAt(i));
			i += c.length;
			if (c === "\n") { this.row++; if (this.options.convertEol) this.col = 0; }
			else if (c === "\r") this.col = 0;
			else if (c === "\b") this.col = Math.max(0, this.col - 1);
			else if (c === "\x07") continue;
			else this.put(c);
			while (this.rows_.length <= this.row) this.rows_.push([]);
		}
		if (typeof done === "function") queueMicrotask(done);
	}
	put(c) {
		const line = this.rows_[this.row];
		while (line.length < this.col) line.push(" ");
		line[this.col++] = c;
	}
	control(args, c) {
		const n = parseInt(args, 10) || 0, line = this.rows_[this.row];
		if (c === "K") {
			if (n === 0) line.length = Math.min(line.length, this.col);
			else if (n === 2) line.length = 0;
			else for (let i = 0; i <= this.col && i < line.length; i++) line[i] = " ";
		} else if (c === "P") line.splice(this.col, n || 1);
		else if (c === "C") this.col += n || 1;
		else if (c === "D") this.col = Math.max(0, this.col - (n || 1));
		else if (c === "G") this.col = Math.max(0, (n || 1) - 1);
		else if (c === "A") this.row = Math.max(0, this.row - (n || 1));
		else if (c === "B") { this.row += n || 1; while (this.rows_.length <= this.row) this.rows_.push([]); }
		else if (c === "J" && n >= 2) this.reset();
	}
	screen(from) { return this.rows_.slice(from).map((l) => l.join("")); }
}
export default { Terminal };
