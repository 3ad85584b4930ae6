// Loads the page over a small document of its own, types texts into it and tells
// what is to be seen, one JSON line each. What the page uses but this document
// does not have is told as well: the page is not judged then.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const [, , dir, site] = process.argv;
for (const [k, v] of Object.entries({
  require, fs, path, TextEncoder: require("util").TextEncoder, TextDecoder: require("util").TextDecoder,
})) {
  if (globalThis[k] === undefined) globalThis[k] = v;
}
require(path.join(dir, "wasm_exec.js"));
const out = (v) => fs.writeSync(1, JSON.stringify(v) + "\n");

let lacking = "";
const strict = (o, what) => new Proxy(o, {
  get(t, k, r) {
    if (typeof k === "symbol" || k in t) return Reflect.get(t, k, r);
    if (/^\d+$/.test(k) || k === "then" || k === "toJSON") return undefined;
    lacking = lacking || what + "." + k;
    return undefined;
  },
});

// the document

const entities = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = (s) => s.replace(/&(?:#(\d+)|#[xX]([0-9a-fA-F]+)|([a-zA-Z]+));/g, (m, d, x, n) => {
  if (n) return entities[n] === undefined ? m : entities[n];
  return String.fromCodePoint(Math.min(d ? parseInt(d, 10) : parseInt(x, 16), 0x10ffff));
});
const encode = (s) => s.replace(/[&<>"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;" })[c]);
const void_ = new Set(["br", "img", "hr", "input", "meta", "link"]);

class Text {
  constructor(data) { this.data = data; this.parentNode = null; }
  get textContent() { return this.data; }
  get nodeType() { return 3; }
  html() { return encode(this.data); }
  seen() { return this.data; }
  styled() { return this.data; }
}

class Element {
  constructor(tag) {
    this.tagName = tag.toUpperCase();
    this.childNodes = [];
    this.parentNode = null;
    this.attrs = {};
    this.style = strict({ display: "", visibility: "" }, "style");
    this.listeners = {};
    this.value = "";
    this.dataset = {};
    const el = this;
    const names = () => (el.attrs.class || "").split(/\s+/).filter(Boolean);
    const put = (l) => { el.attrs.class = l.join(" "); };
    this.classList = strict({
      add: (...n) => put([...new Set([...names(), ...n])]),
      remove: (...n) => put(names().filter((x) => !n.includes(x))),
      contains: (n) => names().includes(n),
      toggle: (n, on) => {
        if (on === undefined) on = !names().includes(n);
        put(on ? [...new Set([...names(), n])] : names().filter((x) => x !== n));
      },
    }, "classList");
  }
  get nodeType() { return 1; }
  get className() { return this.attrs.class || ""; }
  set className(v) { this.attrs.class = String(v); }
  get id() { return this.attrs.id || ""; }
  set id(v) { this.attrs.id = String(v); }
  get hidden() { return "hidden" in this.attrs; }
  set hidden(v) { if (v) this.attrs.hidden = ""; else delete this.attrs.hidden; }
  get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get parentElement() { return this.parentNode; }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { this.replaceChildren(); if (v !== null && String(v) !== "") this.append(String(v)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.childNodes.map((c) => c.html()).join(""); }
  set innerHTML(v) { this.replaceChildren(...parse(String(v))); }
  get outerHTML() { return this.html(); }
  html() {
    const a = Object.entries(this.attrs).map(([k, v]) => ` ${k}="${encode(v)}"`).join("");
    const tag = this.tagName.toLowerCase();
    return `<${tag}${a}>` + (void_.has(tag) ? "" : `${this.innerHTML}</${tag}>`);
  }
  get gone() {
    return this.style.display === "none" || this.style.visibility === "hidden" || this.hidden ||
      /display\s*:\s*none/.test(this.attrs.style || "");
  }
  seen() {
    return this.gone || ["SCRIPT", "STYLE", "TEMPLATE"].includes(this.tagName) ? "" : this.childNodes.map((c) => c.seen()).join("");
  }
  // what is to be seen, and the names of the styles it has
  styled() {
    return this.gone ? "" : ` {${this.className}} ` + this.childNodes.map((c) => c.styled()).join("");
  }
  append(...nodes) {
    for (let n of nodes) {
      if (!(n instanceof Text) && !(raw(n) instanceof Element)) n = new Text(String(n));
      n = raw(n);
      if (n.parentNode) n.parentNode.removeChild(n);
      n.parentNode = this;
      this.childNodes.push(n);
    }
  }
  prepend(...nodes) {
    const rest = this.childNodes;
    this.childNodes = [];
    this.append(...nodes);
    this.childNodes.push(...rest);
  }
  appendChild(n) { this.append(n); return n; }
  removeChild(n) {
    n = raw(n);
    this.childNodes = this.childNodes.filter((c) => c !== n);
    n.parentNode = null;
    return n;
  }
  replaceChildren(...nodes) {
    for (const c of this.childNodes) c.parentNode = null;
    this.childNodes = [];
    this.append(...nodes);
  }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  insertAdjacentHTML(where, html) {
    if (where === "beforeend") this.append(...parse(html));
    else if (where === "afterbegin") this.prepend(...parse(html));
    else lacking = lacking || "insertAdjacentHTML " + where;
  }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  removeAttribute(k) { delete this.attrs[k]; }
  hasAttribute(k) { return k in this.attrs; }
  addEventListener(e, f) { (this.listeners[e] = this.listeners[e] || []).push(f); }
  all() { return this.children.flatMap((c) => [c, ...c.all()]); }
  matches(sel) {
    return sel.split(",").some((s) => {
      const m = s.trim().match(/^([a-zA-Z]*)((?:[#.][\w-]+)*)$/);
      if (!m) { lacking = lacking || "selector " + sel; return false; }
      return (!m[1] || m[1].toUpperCase() === this.tagName) && (m[2].match(/[#.][\w-]+/g) || [])
        .every((p) => p[0] === "#" ? this.attrs.id === p.slice(1) : this.classList.contains(p.slice(1)));
    });
  }
  querySelectorAll(sel) { return this.all().filter((e) => e.matches(sel)).map(el); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  fire(e) {
    const ev = strict({ type: e, target: el(this), currentTarget: el(this), preventDefault() {}, stopPropagation() {} }, "event");
    for (const f of this.listeners[e] || []) f.call(el(this), ev);
    if (typeof this["on" + e] === "function") this["on" + e].call(el(this), ev);
  }
}
Element.prototype.oninput = null;
Element.prototype.onchange = null;
Element.prototype.onkeyup = null;

const proxies = new WeakMap();
const raws = new WeakMap();
function el(e) {
  if (!e) return e;
  if (!proxies.has(e)) {
    const p = strict(e, "element");
    proxies.set(e, p);
    raws.set(p, e);
  }
  return proxies.get(e);
}
function raw(p) { return raws.get(p) || p; }

// parse reads markup the way a browser reads what is assigned to innerHTML.
function parse(html) {
  const top = new Element("fragment");
  let at = top;
  const re = /<!--[\s\S]*?(?:-->|$)|<!?\/?[a-zA-Z](?:[^>"']|"[^"]*"|'[^']*')*>|<[!?][^>]*>|<\/?[a-zA-Z][\s\S]*$|[^<]+|</g;
  for (const t of html.match(re) || []) {
    let m;
    if (/^<[!?]/.test(t)) continue;
    if ((m = t.match(/^<\/([a-zA-Z][^\s>\/]*)/))) {
      let e = at;
      while (e !== top && e.tagName !== m[1].toUpperCase()) e = e.parentNode;
      if (e !== top) at = e.parentNode;
    } else if ((m = t.match(/^<([a-zA-Z][^\s>\/]*)/))) {
      if (!t.endsWith(">")) continue; // cut off: dropped
      const e = new Element(m[1]);
      for (const a of t.slice(m[0].length, -1).matchAll(/([^\s=\/"'<>]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g)) {
        const v = a[2] === undefined ? "" : a[2];
        e.attrs[a[1].toLowerCase()] = decode(/^["']/.test(v) ? v.slice(1, -1) : v);
      }
      at.append(e);
      if (!void_.has(m[1].toLowerCase())) at = e;
    } else {
      at.append(new Text(decode(t)));
    }
  }
  const nodes = top.childNodes;
  for (const n of nodes) n.parentNode = null;
  return nodes;
}

const source = fs.readFileSync(path.join(site, "index.html"), "utf8");
const scripts = [];
const markup = source.replace(/<script([^>]*)>([\s\S]*?)<\/script>/gi, (m, attrs, body) => {
  const src = attrs.match(/src\s*=\s*["']?([^"'\s>]+)/i);
  if (!src) scripts.push(body);
  else if (!/^(https?:)?\/\//.test(src[1]) && !src[1].endsWith("wasm_exec.js")) {
    const f = path.join(site, path.basename(src[1]));
    if (fs.existsSync(f)) scripts.push(fs.readFileSync(f, "utf8"));
    else lacking = lacking || "script " + src[1];
  }
  return "";
});
const root = new Element("document");
root.append(...parse(markup));
const body = root.all().find((e) => e.tagName === "BODY") || root;
const ready = [];
const document = strict({
  body: el(body),
  head: el(root.all().find((e) => e.tagName === "HEAD") || root),
  documentElement: el(root),
  readyState: "loading",
  title: "",
  getElementById: (id) => el(root.all().find((e) => e.attrs.id === id)) || null,
  getElementsByClassName: (c) => root.querySelectorAll("." + c),
  getElementsByTagName: (t) => root.querySelectorAll(t),
  querySelector: (s) => root.querySelector(s),
  querySelectorAll: (s) => root.querySelectorAll(s),
  createElement: (t) => el(new Element(t)),
  createTextNode: (s) => new Text(String(s)),
  createDocumentFragment: () => { lacking = lacking || "fragment"; return el(new Element("fragment")); },
  addEventListener: (e, f) => { if (e === "DOMContentLoaded" || e === "readystatechange") ready.push(f); },
}, "document");

// the library the page uses

let marks = null;
function ranges(text, h) {
  if (!h) return [];
  if (typeof h === "function") return ranges(text, h(text));
  if (h instanceof RegExp || Object.prototype.toString.call(h) === "[object RegExp]") {
    lacking = lacking || "highlighting by expression";
    return [];
  }
  if (typeof h === "string") { lacking = lacking || "highlighting by word"; return []; }
  if (Array.isArray(h) || Object.prototype.toString.call(h) === "[object Array]") {
    if (h.length === 2 && typeof h[0] === "number" && typeof h[1] === "number") return [[h[0], h[1]]];
    return [...h].flatMap((x) => ranges(text, x));
  }
  if (typeof h === "object" && h.highlight) return ranges(text, h.highlight);
  throw new Error("unrecognized highlight type");
}

function $(what) {
  if (typeof what === "function") { ready.push(what); return $([]); }
  let list;
  if (typeof what === "string") {
    list = /^\s*</.test(what) ? parse(what.trim()) : root.all().filter((e) => e.matches(what));
  } else if (what && what.jq) list = what.jq;
  else if (Array.isArray(what)) list = what;
  else if (what === document || what === window) {
    return strict({ ready: (f) => ready.push(f), on: (e, f) => { if (e === "load" || e === "ready") ready.push(f); } }, "$(document)");
  } else list = [raw(what)];
  const each = (f) => { list.forEach(f); return self; };
  const nodes = (vs) => vs.flatMap((v) => {
    if (v === null || v === undefined) return [];
    if (v.jq) return v.jq;
    if (v instanceof Text || raw(v) instanceof Element) return [raw(v)];
    if (Array.isArray(v)) return nodes(v);
    v = String(v);
    return /</.test(v) ? parse(v) : [new Text(decode(v))];
  });
  const self = strict({
    jq: list,
    length: list.length,
    get: (i) => i === undefined ? list.map(el) : el(list[i]),
    val: (v) => v === undefined ? (list[0] ? list[0].value : undefined) : each((e) => { e.value = String(v); }),
    text: (v) => v === undefined ? list.map((e) => e.textContent).join("") : each((e) => { e.textContent = String(v); }),
    html: (v) => v === undefined ? (list[0] ? list[0].innerHTML : undefined) : each((e) => e.replaceChildren(...nodes([v]))),
    empty: () => each((e) => e.replaceChildren()),
    remove: () => each((e) => e.remove()),
    append: (...v) => each((e) => e.append(...nodes(v))),
    prepend: (...v) => each((e) => e.prepend(...nodes(v))),
    appendTo: (t) => { $(t).append(self); return self; },
    hide: () => each((e) => { e.style.display = "none"; }),
    show: () => each((e) => { e.style.display = ""; }),
    toggle: (on) => each((e) => { e.style.display = (on === undefined ? e.gone : on) ? "" : "none"; }),
    addClass: (c) => each((e) => e.classList.add(...c.split(/\s+/))),
    removeClass: (c) => each((e) => e.classList.remove(...c.split(/\s+/))),
    toggleClass: (c, on) => each((e) => e.classList.toggle(c, on)),
    hasClass: (c) => list.some((e) => e.classList.contains(c)),
    attr: (k, v) => v === undefined ? list[0] && list[0].attrs[k] : each((e) => e.setAttribute(k, v)),
    prop: (k, v) => v === undefined ? list[0] && list[0][k] : each((e) => { e[k] = v; }),
    css: (k, v) => each((e) => { e.style[k] = v; }),
    on: (e, f) => each((x) => e.split(/\s+/).forEach((n) => x.addEventListener(n.split(".")[0], f))),
    each: (f) => each((e, i) => f.call(el(e), i, el(e))),
    find: (s) => $(list.flatMap((e) => e.all().filter((x) => x.matches(s)))),
    children: () => $(list.flatMap((e) => e.children)),
    first: () => $(list.slice(0, 1)),
    last: () => $(list.slice(-1)),
    highlightWithinTextarea: (o) => each((e) => {
      const run = () => { marks = ranges(e.value, o && o.highlight !== undefined ? o.highlight : o); };
      e.addEventListener("input", run);
      run();
    }),
  }, "jquery");
  return self;
}
$.each = (l, f) => { [...l].forEach((v, i) => f.call(v, i, v)); };

// the program

let asked = [];
let failed = "";
process.on("unhandledRejection", (e) => { failed = failed || String(e && e.stack || e); });
process.on("uncaughtException", (e) => { failed = failed || String(e && e.stack || e); });
const wrapped = (f) => (text) => {
  const r = f(text);
  asked.push({ text: String(text), result: r === undefined ? null : JSON.parse(JSON.stringify(r)) });
  return r;
};
const window = globalThis;
for (const [k, v] of Object.entries({ window, self: window, document, $, jQuery: $ })) globalThis[k] = v;
globalThis.addEventListener = (e, f) => { if (e === "load" || e === "DOMContentLoaded") ready.push(f); };
globalThis.fetch = async (name) => {
  const b = fs.readFileSync(path.join(dir, path.basename(String(name))));
  return { ok: true, arrayBuffer: async () => b.buffer.slice(b.byteOffset, b.byteOffset + b.length) };
};
WebAssembly.instantiateStreaming = async (resp, imports) => WebAssembly.instantiate(await (await resp).arrayBuffer(), imports);
let inner;
Object.defineProperty(globalThis, "parseAQL", { configurable: true, get: () => inner, set: (f) => { inner = wrapped(f); } });

function main() {
  const area = root.all().find((e) => e.tagName === "TEXTAREA");
  for (const s of scripts) {
    try { vm.runInThisContext(s, { filename: "page" }); } catch (e) { failed = failed || String(e.stack); }
  }
  document.readyState = "complete";
  for (const f of ready) f($);
  let tries = 0;
  const wait = () => {
    const up = inner && area && (marks !== null || Object.keys(area.listeners).length > 0 || area.oninput);
    if (!up && !failed && tries++ < 2000) { setTimeout(wait, 5); return; }
    if (!area) lacking = lacking || "no text area";
    out({ ready: !!up, lacking, failed });
    if (!up) process.exit(0);
    read(area);
  };
  wait();
}

function read(area) {
  let buf = "";
  const texts = [];
  let busy = false, over = false;
  const of = (sel) => root.all().filter((e) => e.matches(sel));
  const next = async () => {
    if (busy) return;
    busy = true;
    while (texts.length > 0) {
      const text = texts.shift();
      area.value = text;
      asked = [];
      marks = null;
      failed = "";
      try { area.fire("input"); } catch (e) { failed = String(e && e.stack || e); }
      await new Promise(setImmediate);
      // it may take its time
      for (let i = 0; i < 200 && text !== "" && asked.length === 0 && !failed; i++) {
        await new Promise((r) => setTimeout(r, 10));
      }
      const shown = of("#messages").filter((e) => !e.gone);
      out({
        asked, marks, failed, lacking,
        messages: shown.map((e) => e.seen()).join("\n"),
        styled: shown.map((e) => e.styled()).join("\n"),
        output: of("output").map((e) => e.seen()).join("\n"),
      });
    }
    busy = false;
    if (over) process.exit(0);
  };
  process.stdin.setEncoding("utf8");
  process.stdin.on("data", (d) => {
    buf += d;
    for (let i = buf.indexOf("\n"); i >= 0; i = buf.indexOf("\n")) {
      texts.push(JSON.parse(buf.slice(0, i)));
      buf = buf.slice(i + 1);
    }
    next();
  });
  process.stdin.on("end", () => { over = true; if (!busy) process.exit(0); });
}
main();
