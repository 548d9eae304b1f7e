// Bundles the web page's code, with stand-ins for React, the DOM renderer and xterm that only do what the code sees of them.
// usage: node bundle.js ENTRY OUT
const path = require("path");
const esbuild = require(process.env.VERIF_ESBUILD || "/opt/veriftools/node/node_modules/esbuild");
const stands = { "react": "react.js", "react/jsx-runtime": "react.js", "react/jsx-dev-runtime": "react.js", "react-dom/client": "react.js", "react-dom": "react.js", "xterm": "xterm.js", "@xterm/xterm": "xterm.js" };
esbuild.build({
	entryPoints: [process.argv[2]],
	outfile: process.argv[3],
	bundle: true,
	format: "iife",
	platform: "browser",
	jsx: "automatic",
	target: "es2022",
	logLevel: "error",
	define: { "import.meta.env.BASE_URL": '"/"', "import.meta.env.DEV": "false", "import.meta.env.PROD": "true", "import.meta.env.MODE": '"production"', "process.env.NODE_ENV": '"production"' },
	loader: { ".css": "empty", ".svg": "empty", ".png": "empty", ".wasm": "empty" },
	tsconfigRaw: { compilerOptions: { jsx: "react-jsx", target: "ES2022", useDefineForClassFields: true } },
	plugins: [{
		name: "stands",
		setup(b) {
			b.onResolve({ filter: /^[^./]/ }, (a) => {
				if (a.kind === "entry-point") return;
				if (stands[a.path]) return { path: path.join(__dirname, stands[a.path]) };
				if (a.path.endsWith(".css")) return { path: path.join(__dirname, "none.css") };
			});
		},
	}],
}).catch((e) => { console.error(String(e)); process.exit(1); });
