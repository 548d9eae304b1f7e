// As much of React as function components with hooks need.
let current = null; // the component being rendered

export const Fragment = Symbol("fragment");
export const StrictMode = Fragment, Suspense = Fragment;

function jsx(type, props, key) { return { type, props: props || {}, key }; }
export { jsx, jsx as jsxs, jsx as jsxDEV };
export function createElement(type, props, ...children) {
	const p = { ...(props || {}) };
	if (children.length) p.children = children.length === 1 ? children[0] : children;
	return { type, props: p, key: p.key };
}

function slot(make) {
	const c = current, i = c.at++;
	if (i >= c.slots.length) c.slots.push(make());
	return c.slots[i];
}
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));

export function useReducer(f, init, lazy) {
	const c = current;
	const s = slot(() => ({ v: lazy ? lazy(init) : init }));
	s.f = f;
	if (!s.set) s.set = (a) => {
		const v = s.f(s.v, a);
		if (!Object.is(v, s.v)) { s.v = v; c.root.later(); }
	};
	return [s.v, s.set];
}
export function useState(init) {
	return useReducer((v, a) => (typeof a === "function" ? a(v) : a), undefined, () => (typeof init === "function" ? init() : init));
}
export function useRef(v) { return slot(() => ({ current: v })); }
export function useMemo(f, deps) {
	const s = slot(() => ({}));
	if (changed(s.deps, deps)) { s.v = f(); s.deps = deps; }
	return s.v;
}
export const useCallback = (f, deps) => useMemo(() => f, deps);
function effect(kind, f, deps) {
	const s = slot(() => ({ kind }));
	if (changed(s.deps, deps)) { s.run = f; s.deps = deps; }
}
export const useEffect = (f, d) => effect("effect", f, d);
export const useLayoutEffect = (f, d) => effect("layout", f, d);
export const useInsertionEffect = useLayoutEffect;
export const useImperativeHandle = () => {};
export const useDebugValue = () => {};
export const useTransition = () => [false, (f) => f()];
export const startTransition = (f) => f();
export function useId() { return slot(() => ":" + Math.random()); }
export function createContext(v) {
	const c = { v, stack: [] };
	c.Provider = (p) => p.children;
	c.Provider.context = c;
	c.Consumer = (p) => p.children(useContext(c));
	return c;
}
export const useContext = (c) => (c.stack.length ? c.stack[c.stack.length - 1] : c.v);
export const memo = (f) => f;
export const forwardRef = (f) => (p) => f(p, p.ref);

function makeElement(tag) {
	const e = { tagName: String(tag).toUpperCase(), style: {}, children: [], clientWidth: 800, clientHeight: 600, offsetWidth: 800, offsetHeight: 600,
		addEventListener() {}, removeEventListener() {}, appendChild(x) { e.children.push(x); return x; }, removeChild() {}, focus() {}, setAttribute() {},
		getBoundingClientRect: () => ({ x: 0, y: 0, width: 800, height: 600, top: 0, left: 0, right: 800, bottom: 600 }) };
	return e;
}

class Root {
	constructor() { this.nodes = new Map(); this.waiting = false; }
	render(el) { this.el = el; this.paint(); }
	later() {
		if (this.waiting) return;
		this.waiting = true;
		queueMicrotask(() => { this.waiting = false; this.paint(); });
	}
	paint() {
		this.seen = new Set();
		this.refs = [];
		this.effects = { layout: [], effect: [] };
		this.visit(this.el, "");
		for (const [k, n] of this.nodes) if (!this.seen.has(k)) { this.nodes.delete(k); this.leave(n); }
		for (const f of this.refs) f();
		for (const kind of ["layout", "effect"]) for (const s of this.effects[kind]) {
			const f = s.run;
			s.run = null;
			if (s.undo) s.undo();
			const u = f();
			s.undo = typeof u === "function" ? u : null;
		}
	}
	leave(n) {
		for (const s of n.slots || []) if (s && s.kind && s.undo) s.undo();
		if (n.ref) typeof n.ref === "function" ? n.ref(null) : (n.ref.current = null);
	}
	visit(el, at) {
		if (Array.isArray(el)) return el.forEach((x, i) => this.visit(x, at + "/" + (x && x.key != null ? "k" + x.key : i)));
		if (el == null || typeof el !== "object") return;
		const { type, props } = el;
		const key = at + "/" + (typeof type === "function" ? type.name : String(type)) + (el.key != null ? "#" + el.key : "");
		this.seen.add(key);
		if (type === Fragment) return this.visit(props.children, key);
		if (typeof type === "function") {
			let n = this.nodes.get(key);
			if (!n) this.nodes.set(key, (n = { slots: [], root: this, type }));
			n.at = 0;
			const before = current;
			current = n;
			if (type.context) type.context.stack.push(props.value);
			const out = type(props);
			current = before;
			this.visit(out, key);
			if (type.context) type.context.stack.pop();
			// Effects of the components inside come first.
			for (const s of n.slots) if (s && s.kind && s.run) this.effects[s.kind].push(s);
			return;
		}
		let n = this.nodes.get(key);
		if (!n) {
			this.nodes.set(key, (n = { element: makeElement(type) }));
			const ref = props.ref || el.ref;
			if (ref) {
				n.ref = ref;
				this.refs.push(() => (typeof ref === "function" ? ref(n.element) : (ref.current = n.element)));
			}
		}
		this.visit(props.children, key);
	}
	unmount() { for (const n of this.nodes.values()) this.leave(n); this.nodes.clear(); }
}
export const createRoot = () => new Root();
export const hydrateRoot = createRoot;
export const createPortal = (el) => el;
export const flushSync = (f) => f();
export function render(el) { const r = new Root(); r.render(el); return r; }
const all = { Fragment, StrictMode, Suspense, jsx, createElement, useReducer, useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useDebugValue, useTransition, startTransition, useId, createContext, useContext, memo, forwardRef, createRoot, hydrateRoot, createPortal, flushSync, render };
export default all;
