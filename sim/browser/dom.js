'use strict';
// A small document: what the pages of /repo/visualization need of a browser.

let count = 0;
const VOID = new Set(['meta', 'link', 'input', 'br', 'img', 'hr']);

class Node {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; this.uid = ++count; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get nextSibling() {
    if (!this.parentNode) return null;
    const l = this.parentNode.childNodes;
    return l[l.indexOf(this) + 1] || null;
  }
  get previousSibling() {
    if (!this.parentNode) return null;
    const l = this.parentNode.childNodes;
    return l[l.indexOf(this) - 1] || null;
  }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get children() { return this.childNodes.filter(c => c instanceof Element); }
  get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element)) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element)) n = n.previousSibling; return n; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  get isConnected() { return this.ownerDocument.contains(this); }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  appendChild(c) { return this.insertBefore(c, null); }
  insertBefore(c, before) {
    if (before && before.parentNode !== this) throw new Error('NotFoundError: the node before which the new node is to be inserted is not a child of this node.');
    if (c.contains(this)) throw new Error('HierarchyRequestError: the new child element contains the parent.');
    if (before === c) before = c.nextSibling;
    if (c.localName === '#fragment') { c.childNodes.slice().forEach(x => this.insertBefore(x, before)); return c; }
    if (c.parentNode) c.parentNode.removeChild(c);
    const l = this.childNodes, i = before ? l.indexOf(before) : l.length;
    l.splice(i, 0, c);
    c.parentNode = this;
    return c;
  }
  removeChild(c) {
    if (c.parentNode !== this) throw new Error('NotFoundError: the node to be removed is not a child of this node.');
    this.childNodes.splice(this.childNodes.indexOf(c), 1);
    c.parentNode = null;
    return c;
  }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  _nodes(l) { return l.map(c => c instanceof Node ? c : this.ownerDocument.createTextNode(c)); }
  append(...l) { this._nodes(l).forEach(c => this.appendChild(c)); }
  prepend(...l) { const b = this.firstChild; this._nodes(l).forEach(c => this.insertBefore(c, b)); }
  before(...l) { this._nodes(l).forEach(c => this.parentNode.insertBefore(c, this)); }
  after(...l) { const b = this.nextSibling; this._nodes(l).forEach(c => this.parentNode.insertBefore(c, b)); }
  replaceWith(...l) { this.before(...l); this.remove(); }
  replaceChildren(...l) { this.textContent = ''; this.append(...l); }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(v) {
    this.childNodes.slice().forEach(c => this.removeChild(c));
    v = v == null ? '' : String(v);
    if (v !== '') this.appendChild(new Text(this.ownerDocument, v));
  }
  // Depth first, in document order, without the node itself.
  *walk() { for (const c of this.childNodes) if (c instanceof Element) { yield c; yield* c.walk(); } }
  querySelectorAll(s) { const m = compile(s, this); const r = []; for (const e of this.walk()) if (m(e)) r.push(e); return r; }
  querySelector(s) { const m = compile(s, this); for (const e of this.walk()) if (m(e)) return e; return null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(c) { return this.querySelectorAll(String(c).trim().split(/\s+/).map(x => '.' + x).join('')); }
  // Events
  addEventListener(type, f) { ((this._on = this._on || {})[type] = this._on[type] || []).push(f); }
  removeEventListener(type, f) { const l = this._on && this._on[type]; if (l && l.indexOf(f) >= 0) l.splice(l.indexOf(f), 1); }
  dispatchEvent(e) {
    e.target = e.target || this;
    let stopped = false;
    e.preventDefault = e.preventDefault || function() {};
    e.stopPropagation = function() { stopped = true; };
    e.stopImmediatePropagation = e.stopPropagation;
    for (let n = this; n && !stopped; n = e.bubbles === false ? null : n.parentNode) {
      e.currentTarget = n;
      if (typeof n['on' + e.type] === 'function') n['on' + e.type](e);
      for (const f of ((n._on && n._on[e.type]) || []).slice()) f.call(n, e);
    }
    return true;
  }
}

class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = v == null ? '' : String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = v == null ? '' : String(v); }
}

class Style {
  constructor() { this._m = new Map(); }
  setProperty(k, v, p) { if (v == null || v === '') this._m.delete(k); else this._m.set(k, String(v)); }
  getPropertyValue(k) { return this._m.has(k) ? this._m.get(k) : ''; }
  removeProperty(k) { this._m.delete(k); }
}
const dashed = k => k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
const styleProxy = () => new Proxy(new Style(), {
  get(t, k) { if (typeof k !== 'string' || k in t) { const v = t[k]; return typeof v === 'function' ? v.bind(t) : v; } return t.getPropertyValue(dashed(k)); },
  set(t, k, v) { t.setProperty(dashed(k), v); return true; }});

class ClassList {
  constructor(e) { this.e = e; }
  get l() { return (this.e.getAttribute('class') || '').split(/\s+/).filter(x => x); }
  contains(c) { return this.l.indexOf(c) >= 0; }
  add(...cs) { const l = this.l; cs.forEach(c => { if (l.indexOf(c) < 0) l.push(c); }); this.e.setAttribute('class', l.join(' ')); }
  remove(...cs) { this.e.setAttribute('class', this.l.filter(c => cs.indexOf(c) < 0).join(' ')); }
  toggle(c, on) { if (on === undefined) on = !this.contains(c); on ? this.add(c) : this.remove(c); return on; }
}

class Element extends Node {
  constructor(doc, tag, ns) {
    super(doc); this.nodeType = 1; this.localName = tag; this.namespaceURI = ns || null;
    this.attrs = new Map(); this.style = styleProxy(); this.classList = new ClassList(this);
    this.value = '';
  }
  get tagName() { return this.localName; }
  get nodeName() { return this.localName; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get title() { return this.getAttribute('title') || ''; }
  set title(v) { this.setAttribute('title', v); }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  setAttribute(k, v) {
    v = String(v); this.attrs.set(k, v);
    if (k === 'style') v.split(';').forEach(p => { const i = p.indexOf(':'); if (i > 0) this.style.setProperty(p.slice(0, i).trim(), p.slice(i + 1).trim()); });
  }
  hasAttribute(k) { return this.attrs.has(k); }
  removeAttribute(k) { this.attrs.delete(k); }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  setAttributeNS(ns, k, v) { this.setAttribute(k, v); }
  removeAttributeNS(ns, k) { this.removeAttribute(k); }
  getAttributeNames() { return [...this.attrs.keys()]; }
  toggleAttribute(k, on) { if (on === undefined) on = !this.hasAttribute(k); on ? this.setAttribute(k, '') : this.removeAttribute(k); return on; }
  get attributes() { return [...this.attrs].map(([name, value]) => ({name, value})); }
  get dataset() { const e = this, n = k => 'data-' + dashed(k); return new Proxy({}, {
    get: (t, k) => typeof k === 'string' && e.hasAttribute(n(k)) ? e.getAttribute(n(k)) : undefined, has: (t, k) => e.hasAttribute(n(k)),
    set: (t, k, v) => { e.setAttribute(n(k), v); return true; }, deleteProperty: (t, k) => { e.removeAttribute(n(k)); return true; }}); }
  insertAdjacentHTML(where, html) {
    const tmp = new Element(this.ownerDocument, this.localName, this.namespaceURI); parseInto(this.ownerDocument, tmp, html);
    this._adjacent(where, tmp.childNodes.slice());
  }
  insertAdjacentElement(where, e) { this._adjacent(where, [e]); return e; }
  insertAdjacentText(where, s) { this._adjacent(where, [s]); }
  _adjacent(where, l) { this[{beforebegin: 'before', afterbegin: 'prepend', beforeend: 'append', afterend: 'after'}[where]](...l); }
  scrollIntoView() {}
  get offsetWidth() { return this.clientWidth; }
  get offsetHeight() { return this.clientHeight; }
  matches(s) { return compile(s, this.ownerDocument)(this); }
  closest(s) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(s)) return n; return null; }
  get innerHTML() { return this.childNodes.map(serialise).join(''); }
  set innerHTML(v) { this.textContent = ''; parseInto(this.ownerDocument, this, v == null ? '' : String(v)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  cloneNode(deep) {
    const e = new Element(this.ownerDocument, this.localName, this.namespaceURI);
    this.attrs.forEach((v, k) => e.setAttribute(k, v));
    if (deep) this.childNodes.forEach(c => e.appendChild(c instanceof Text ? new Text(c.ownerDocument, c.data) : c.cloneNode(true)));
    return e;
  }
  click() { this.dispatchEvent({type: 'click'}); }
  focus() {}
  blur() {}
  // Sizes: eight units for every character.
  getComputedTextLength() { return 8 * this.textContent.length; }
  getBBox() {
    const b = box(this, false);
    return b ? {x: b[0], y: b[1], width: b[2] - b[0], height: b[3] - b[1]} : {x: 0, y: 0, width: 0, height: 0};
  }
  getBoundingClientRect() { const b = this.getBBox(); return {left: b.x, top: b.y, width: b.width, height: b.height, right: b.x + b.width, bottom: b.y + b.height}; }
  get clientWidth() { return 1500; }
  get clientHeight() { return 600; }
}

function box(e, own) {
  let b = null;
  const add = c => { if (c) b = b ? [Math.min(b[0], c[0]), Math.min(b[1], c[1]), Math.max(b[2], c[2]), Math.max(b[3], c[3])] : c; };
  const num = k => +e.getAttribute(k) || 0;
  if (e.localName === 'rect') add([num('x'), num('y'), num('x') + num('width'), num('y') + num('height')]);
  if (e.localName === 'circle') add([num('cx') - num('r'), num('cy') - num('r'), num('cx') + num('r'), num('cy') + num('r')]);
  e.children.forEach(c => add(box(c, true)));
  if (b && own) {
    const t = e.getAttribute('transform') || '';
    let m = /scale\(\s*([-+.\deE]+)/.exec(t);
    if (m) b = b.map(v => v * +m[1]);
    m = /translate\(\s*([-+.\deE]+)(?:[\s,]+([-+.\deE]+))?/.exec(t);
    if (m) b = [b[0] + +m[1], b[1] + (+m[2] || 0), b[2] + +m[1], b[3] + (+m[2] || 0)];
  }
  return b;
}

class Document extends Node {
  constructor() {
    super(null); this.ownerDocument = this; this.nodeType = 9; this.readyState = 'loading';
    this.documentElement = null;
  }
  get isConnected() { return true; }
  createElement(t) { return new Element(this, t.toLowerCase(), 'http://www.w3.org/1999/xhtml'); }
  createElementNS(ns, t) { return new Element(this, t, ns); }
  createTextNode(s) { return new Text(this, String(s)); }
  getElementById(id) { for (const e of this.walk()) if (e.getAttribute('id') === id) return e; return null; }
  createDocumentFragment() { return new Element(this, '#fragment', null); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
}

// Selectors: lists of compound selectors joined by descent or by '>'.
const cache = new Map();
function parseSelector(s) {
  if (cache.has(s)) return cache.get(s);
  const alternatives = s.split(',').map(one => {
    const tokens = one.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/);
    const steps = []; let direct = false;
    for (const t of tokens) {
      if (t === '>') { direct = true; continue; }
      steps.push({direct, test: compound(t)}); direct = false;
    }
    return steps;
  });
  cache.set(s, alternatives);
  return alternatives;
}
function compound(t) {
  const tests = [];
  let rest = t;
  while (rest) {
    let m;
    if ((m = /^:not\(([^)]*)\)/.exec(rest))) { const inner = compound(m[1]); tests.push(e => !inner(e)); }
    else if ((m = /^:first-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.children[0] === e);
    else if ((m = /^:last-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.lastElementChild === e);
    else if ((m = /^:nth-child\((\d+)\)/.exec(rest))) { const n = +m[1]; tests.push(e => e.parentNode && e.parentNode.children[n - 1] === e); }
    else if ((m = /^\.((?:[\w-]|[^\x00-\x7f])+)/.exec(rest))) { const c = m[1]; tests.push(e => e.classList.contains(c)); }
    else if ((m = /^#([\w-]+)/.exec(rest))) { const c = m[1]; tests.push(e => e.getAttribute('id') === c); }
    else if ((m = /^\[([\w-]+)(?:=["']?([^\]"']*)["']?)?\]/.exec(rest))) { const k = m[1], v = m[2]; tests.push(e => e.hasAttribute(k) && (v === undefined || e.getAttribute(k) === v)); }
    else if ((m = /^\*/.exec(rest))) tests.push(() => true);
    else if ((m = /^[\w-]+/.exec(rest))) { const n = m[0].toLowerCase(); tests.push(e => e.localName.toLowerCase() === n); }
    else throw new Error("SyntaxError: '" + t + "' is not a valid selector.");
    rest = rest.slice(m[0].length);
  }
  return e => tests.every(f => f(e));
}
function compile(s, scope) {
  const alternatives = parseSelector(String(s));
  const match = (steps, i, e) => {
    if (!steps[i].test(e)) return false;
    if (i === 0) return true;
    if (steps[i].direct) return e.parentNode instanceof Element && match(steps, i - 1, e.parentNode);
    for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (match(steps, i - 1, p)) return true;
    return false;
  };
  return e => alternatives.some(steps => match(steps, steps.length - 1, e));
}

const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
function serialise(n) {
  if (n instanceof Text) return esc(n.data);
  return '<' + n.localName + [...n.attrs].map(([k, v]) => ' ' + k + '="' + esc(v).replace(/"/g, '&quot;') + '"').join('') + '>'
    + n.innerHTML + '</' + n.localName + '>';
}
const unesc = s => s.replace(/&(lt|gt|quot|amp|nbsp|#\d+);/g, (m, k) => ({lt: '<', gt: '>', quot: '"', amp: '&', nbsp: '\u00a0'}[k] || String.fromCharCode(+k.slice(1))));
function parseInto(doc, root, html, onScript) {
  let at = root, i = 0, ns;
  const text = s => { if (s) at.appendChild(new Text(doc, unesc(s))); };
  while (i < html.length) {
    const j = html.indexOf('<', i);
    if (j < 0) { text(html.slice(i)); break; }
    text(html.slice(i, j));
    if (html.startsWith('<!--', j)) { const k = html.indexOf('-->', j); i = k < 0 ? html.length : k + 3; continue; }
    if (html.startsWith('<!', j)) { i = html.indexOf('>', j) + 1; continue; }
    const m = /^<(\/?)([a-zA-Z][\w:-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/.exec(html.slice(j));
    if (!m) { text('<'); i = j + 1; continue; }
    i = j + m[0].length;
    const tag = m[2].toLowerCase();
    if (m[1]) {
      for (let p = at; p !== root; p = p.parentNode) if (p.localName === tag) { at = p.parentNode; break; }
      continue;
    }
    const svg = tag === 'svg' || (at instanceof Element && at.namespaceURI === 'http://www.w3.org/2000/svg');
    const e = svg ? doc.createElementNS('http://www.w3.org/2000/svg', m[2]) : doc.createElement(tag);
    const re = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
    for (let a; (a = re.exec(m[3]));) e.setAttribute(a[1], unesc(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || ''));
    at.appendChild(e);
    if (at === doc) doc.documentElement = e;
    if (tag === 'script' || tag === 'style') {
      const k = html.indexOf('</' + tag, i);
      const body = html.slice(i, k);
      i = html.indexOf('>', k) + 1;
      if (body) e.appendChild(new Text(doc, body));
      if (tag === 'script' && onScript) onScript(e, body);
      continue;
    }
    if (!VOID.has(tag) && !m[4]) at = e;
  }
}

module.exports = {Node, Element, Document, Text, parseInto};
