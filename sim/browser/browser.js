'use strict';
// Runs the pages of a checkout under a simulated browser.  Requests, messages,
// clicks and the passing of time are all decided by whoever sends commands:
// one JSON value per line on the standard input, one answer per line.

const fs = require('fs'), path = require('path'), vm = require('vm'), readline = require('readline');
const {Document, Element, Text, parseInto} = require('./dom.js');
const makeD3 = require('./d3.js');

const sources = new Map();
function source(file) {
  if (!sources.has(file)) sources.set(file, fs.readFileSync(file, 'utf8'));
  return sources.get(file);
}
const scripts = new Map();
function compiled(name, code) {
  const k = name + '\0' + code;
  if (!scripts.has(k)) scripts.set(k, new vm.Script(code, {filename: name}));
  return scripts.get(k);
}

class Browser {
  constructor(page, opts) {
    this.clock = 1e6; this.frame = opts.frame || 17;
    this.frames = []; this.nextFrame = null; this.timeouts = []; this.seq = 0;
    this.requests = []; this.errors = []; this.topics = []; this.ros = []; this.dialogs = 0;
    this.alerts = [];
    this.document = new Document();
    const document = this.document, B = this;
    let rnd = (opts.seed || 1) >>> 0;
    const random = () => { rnd = (Math.imul(rnd, 1664525) + 1013904223) >>> 0; return rnd / 4294967296; };
    const log = () => {};
    const g = this.global = vm.createContext({
      console: {log, info: log, warn: log, debug: log, error: log},
      document, alert: m => { B.alerts.push(String(m)); },
      setTimeout: (f, ms, ...a) => B.timeout(() => f(...a), ms), clearTimeout: id => B.clear(id),
      setInterval: (f, ms) => { const again = () => { f(); t.at = B.clock + (ms || 1); B.timeouts.push(t); }; const t = {id: ++B.seq, at: B.clock + (ms || 1), f: again}; B.timeouts.push(t); return t.id; },
      clearInterval: id => B.clear(id),
      requestAnimationFrame: f => { B.wantFrame(f); return 0; }, cancelAnimationFrame: log,
      performance: {now: () => B.clock - 1e6}, navigator: {userAgent: 'simulated'},
      location: {protocol: 'http:', hostname: 'localhost', href: 'http://localhost/' + path.basename(page), search: '', hash: ''},
      addEventListener: (t, f) => { if (t === 'load' || t === 'DOMContentLoaded') B.onload.push(f); },
      getComputedStyle: e => e.style,
    });
    this.onload = [];
    ['fetch', 'XMLHttpRequest', 'FileReader', 'Worker', 'WebSocket', 'MutationObserver', 'ResizeObserver', 'localStorage', 'sessionStorage', 'history',
      'confirm', 'prompt', 'open', 'requestIdleCallback', 'Blob', 'File', 'FormData', 'AbortController', 'CustomEvent', 'Event', 'MouseEvent', 'DOMParser'].forEach(k => {
      Object.defineProperty(g, k, {configurable: true, get() { return B.lacking(k); }, set(v) { Object.defineProperty(g, k, {value: v, writable: true, configurable: true, enumerable: true}); }});
    });
    Object.assign(g, {URL, URLSearchParams, TextEncoder, TextDecoder, queueMicrotask: f => B.timeout(f, 0), innerWidth: 1500, innerHeight: 600, devicePixelRatio: 1, removeEventListener: log,
      btoa, atob, structuredClone, scrollTo: log, Node: require('./dom.js').Node, Element, Text, HTMLElement: Element, SVGElement: Element});
    g.window = g.self = g.globalThis = g;
    document.defaultView = g;
    // Its own values are of the page's realm.
    this.parse = vm.runInContext('JSON.parse', g);
    g.__now = () => B.clock; g.__random = random;
    vm.runInContext(`(function(now, random) {
      const D = Date;
      Date = class extends D { constructor(...a) { if (a.length) super(...a); else super(now()); } static now() { return now(); } };
      Math.random = random;
      delete globalThis.__now; delete globalThis.__random;
    })(__now, __random)`, g);
    g.d3 = undefined;
    this.page = page;
    parseInto(document, document, source(page), (e, body) => this.script(e, body));
    document.readyState = 'complete';
    this.onload.forEach(f => this.guard(f));
  }
  now() { return this.clock; }
  lacking(what) { this.lacks = what; throw new Error('the simulated browser has no ' + what); }
  script(e, body) {
    const src = e.getAttribute('src'), g = this.global;
    if (!src) return this.guard(() => compiled(this.page, body).runInContext(g));
    if (/^(https?:)?\/\//.test(src)) {
      if (/d3(\.v4|js\.org\/d3\.v4|\/4\.)/.test(src)) g.d3 = makeD3(4, this);
      else if (/d3\.v3|\/3\./.test(src) && /d3(\.|js\.org)/.test(src)) g.d3 = makeD3(3, this);
      else if (/jquery/.test(src)) g.$ = g.jQuery = this.jquery();
      else if (/roslib/.test(src)) g.ROSLIB = this.roslib();
      return;
    }
    const file = path.join(path.dirname(this.page), src);
    this.guard(() => compiled(file, source(file)).runInContext(g));
  }
  guard(f, failed) {
    try { f(); } catch (e) {
      this.errors.push(e && e.message !== undefined ? (e.name || 'Error') + ': ' + e.message : 'thrown ' + JSON.stringify(e));
      if (failed) failed();
    }
  }
  // Time
  timeout(f, ms) { const t = {id: ++this.seq, at: this.clock + Math.max(0, ms || 0), f}; this.timeouts.push(t); return t.id; }
  clear(id) { this.timeouts = this.timeouts.filter(t => t.id !== id); }
  wantFrame(f) {
    if (this.frames.indexOf(f) < 0) this.frames.push(f);
    if (this.nextFrame === null) this.nextFrame = (Math.floor(this.clock / this.frame) + 1) * this.frame;
  }
  next() {
    let at = this.nextFrame;
    this.timeouts.forEach(t => { if (at === null || t.at < at) at = t.at; });
    return at;
  }
  runOne() {
    const due = this.timeouts.filter(t => t.at <= this.clock).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (due) { this.timeouts.splice(this.timeouts.indexOf(due), 1); this.guard(due.f); return; }
    const l = this.frames; this.frames = []; this.nextFrame = null;
    l.forEach(f => this.guard(() => f(this.clock - 1e6)));
  }
  advance(ms) {
    const until = this.clock + ms;
    let steps = 0;
    for (let at; (at = this.next()) !== null && at <= until;) { this.clock = Math.max(this.clock, at); this.runOne(); if (++steps > 20000) throw new Error('no progress'); }
    this.clock = until;
    return steps;
  }
  settle(limit) {
    let steps = 0;
    for (let at; (at = this.next()) !== null;) {
      if (steps++ >= limit) return {settled: false, steps};
      this.clock = Math.max(this.clock, at); this.runOne();
    }
    return {settled: true, steps};
  }
  stall(ms) { this.clock += ms; if (this.nextFrame !== null && this.nextFrame < this.clock) this.nextFrame = this.clock; this.timeouts.forEach(t => { if (t.at < this.clock) t.at = this.clock; }); }
  // Network
  request(url, done) { this.requests.push({url, done, open: true}); }
  answer(i, status, body) {
    const r = this.requests[i];
    if (!r || !r.open) throw new Error('no such request');
    r.open = false;
    this.guard(() => r.done(status, body));
  }
  roslib() {
    const B = this;
    class Emitter { constructor() { this._h = {}; } on(t, f) { (this._h[t] = this._h[t] || []).push(f); return this; } emit(t, a) { (this._h[t] || []).slice().forEach(f => B.guard(() => f(a))); } }
    return {
      Ros: class extends Emitter { constructor(o) { super(); B.ros.push(this); if (o && o.url) this.connect(o.url); } connect(url) { this.url = url; } close() {} },
      Topic: class { constructor(o) { this.name = o.name; this.ros = o.ros; this.f = []; this.type = o.messageType; B.topics.push(this); } subscribe(f) { this.f.push(f); } unsubscribe() { this.f = []; } publish() {} advertise() {} },
      Message: class { constructor(o) { Object.assign(this, o); } }};
  }
  jquery() {
    const B = this;
    class Q {
      constructor(l) { this.l = l; this.length = l.length; l.forEach((e, i) => { this[i] = e; }); }
      each(f) { this.l.forEach((e, i) => f.call(e, i, e)); return this; }
      on(types, f) { types.split(/\s+/).forEach(t => this.l.forEach(e => e.addEventListener(t, ev => f.call(e, ev)))); return this; }
      off() { return this; }
      change(f) { return this._ev('change', f); }
      click(f) { return this._ev('click', f); }
      _ev(t, f) { if (f) return this.on(t, f); this.l.forEach(e => e.dispatchEvent({type: t})); return this; }
      html(v) { if (v === undefined) return this.l[0] && this.l[0].innerHTML; return this.each((i, e) => { e.innerHTML = v; }); }
      text(v) { if (v === undefined) return this.l.map(e => e.textContent).join(''); return this.each((i, e) => { e.textContent = v; }); }
      val(v) { if (v === undefined) return this.l[0] && this.l[0].value; return this.each((i, e) => { e.value = v; }); }
      attr(k, v) { if (v === undefined) return this.l[0] && this.l[0].getAttribute(k); return this.each((i, e) => e.setAttribute(k, v)); }
      css(k, v) { return this.each((i, e) => e.style.setProperty(k, v)); }
      addClass(c) { return this.each((i, e) => e.classList.add(c)); }
      removeClass(c) { return this.each((i, e) => e.classList.remove(c)); }
      toggleClass(c) { return this.each((i, e) => e.classList.toggle(c)); }
      show() { return this.each((i, e) => e.style.removeProperty('display')); }
      hide() { return this.each((i, e) => e.style.setProperty('display', 'none')); }
      empty() { return this.each((i, e) => { e.textContent = ''; }); }
      remove() { return this.each((i, e) => e.remove()); }
      get(i) { return i === undefined ? this.l : this.l[i]; }
      ready(f) { B.onload.push(f); return this; }
      find(s) { return new Q([].concat(...this.l.map(e => e.querySelectorAll(s)))); }
      prop(k, v) { if (v === undefined) return this.l[0] && this.l[0][k]; return this.each((i, e) => { e[k] = v; }); }
      removeAttr(k) { return this.each((i, e) => e.removeAttribute(k)); }
      hasClass(c) { return this.l.some(e => e.classList.contains(c)); }
      first() { return this.eq(0); }
      last() { return this.eq(this.l.length - 1); }
      eq(i) { return new Q(this.l.slice(i, i + 1)); }
      parent() { return new Q(this.l.map(e => e.parentElement).filter(x => x)); }
      children(s) { return new Q([].concat(...this.l.map(e => e.children)).filter(e => !s || e.matches(s))); }
      closest(s) { return new Q(this.l.map(e => e.closest(s)).filter(x => x)); }
      is(s) { return this.l.some(e => e.matches(s)); }
      not(s) { return new Q(this.l.filter(e => !e.matches(s))); }
      filter(s) { return new Q(this.l.filter((e, i) => typeof s === 'function' ? s.call(e, i, e) : e.matches(s))); }
      map(f) { return this.l.map((e, i) => f.call(e, i, e)); }
      append(c) { return this.each((i, e) => { typeof c === 'string' ? parseInto(B.document, e, c) : (c instanceof Q ? c.l : [c]).forEach(x => e.appendChild(x)); }); }
      trigger(t) { this.l.forEach(e => e.dispatchEvent({type: t})); return this; }
      submit(f) { return this._ev('submit', f); }
      toArray() { return this.l; }
    }
    ['ajax', 'animate', 'fadeIn', 'fadeOut', 'load', 'data', 'width', 'height', 'offset', 'position', 'appendTo', 'prepend', 'before', 'after', 'toggle', 'delegate', 'bind', 'unbind', 'one', 'siblings', 'next', 'prev', 'index', 'add', 'wrap', 'clone', 'replaceWith', 'keyup', 'keydown', 'hover', 'focus', 'blur', 'serialize'].forEach(k => {
      if (!(k in Q.prototype)) Object.defineProperty(Q.prototype, k, {get() { return B.lacking('jQuery.fn.' + k); }});
    });
    const $ = x => {
      if (typeof x === 'function') { B.onload.push(x); return new Q([]); }
      if (typeof x === 'string') return new Q(B.document.querySelectorAll(x));
      return x instanceof Q ? x : new Q([x]);
    };
    ['ajax', 'get', 'getJSON', 'post', 'extend', 'Deferred', 'when', 'map', 'grep', 'inArray', 'isArray', 'parseJSON', 'trim', 'proxy', 'noop', 'type'].forEach(k => {
      Object.defineProperty($, k, {get() { return B.lacking('jQuery.' + k); }});
    });
    $.each = (o, f) => { for (const k in o) f(k, o[k]); };
    return $;
  }
  // The user
  find(e) { for (const n of this.document.walk()) if (n.uid === e) return n; return null; }
  look(selector) {
    const one = e => ({e: e.uid, tag: e.localName, attrs: Object.fromEntries(e.attrs), style: Object.fromEntries(e.style._m),
      text: e.childNodes.filter(c => c instanceof Text).map(c => c.data).join(''), children: e.children.map(one)});
    return this.document.querySelectorAll(selector).map(one);
  }
}

let browser = null;
const commands = {
  open(c) { browser = new Browser(c.page, c); return state(); },
  // The user acts on an element
  event(c) {
    const n = typeof c.on === 'number' ? browser.find(c.on) : browser.document.querySelector(c.on);
    if (!n) return {missing: true};
    browser.guard(() => n.dispatchEvent(Object.assign({type: c.type}, c.props)));
    return state();
  },
  // ... and picks a file: browsers hide where it comes from
  pick(c) {
    const n = browser.document.querySelector('input[type=file]');
    n.value = 'C:\\fakepath\\' + c.name;
    browser.guard(() => n.dispatchEvent({type: 'change'}));
    return state();
  },
  zoom(c) {
    const n = browser.document.querySelector('svg');
    if (!n.__zoom) return {missing: true};
    browser.guard(() => n.__zoom(c.x, c.y, c.k));
    return state();
  },
  drag(c) {
    const n = browser.find(c.on);
    if (!n || !n.__drag) return {missing: true};
    const ev = (type, o) => browser.guard(() => n.__drag.fire(type, Object.assign({sourceEvent: {stopPropagation() {}, preventDefault() {}}}, o), n, [n.__data__, 0]));
    const d = n.__data__, d3 = browser.global.d3, x0 = d.x, y0 = d.y;
    n.dispatchEvent({type: 'mouseover', bubbles: false});
    ev('dragstart', {});
    let x = d.x, y = d.y;
    c.moves.forEach(([dx, dy, ms]) => { x += dx; y += dy; ev('drag', {x, y, dx, dy}); if (ms) browser.advance(ms); });
    ev('dragend', {});
    n.dispatchEvent({type: 'mouseout', bubbles: false});
    return Object.assign(state(), {at: [x, y]});
  },
  answer(c) { browser.answer(c.request, c.status, c.body); return state(); },
  ros(c) { browser.ros.forEach(r => r.emit(c.type, c.value)); return state(); },
  publish(c) { browser.topics.forEach(t => { if (t.name === c.topic) t.f.forEach(f => browser.guard(() => f({data: c.data}))); }); return state(); },
  advance(c) { browser.advance(c.ms); return state(); },
  stall(c) { browser.stall(c.ms); return state(); },
  settle(c) { return Object.assign(browser.settle(c.limit), state()); },
  look(c) { return Object.assign({found: browser.look(c.at)}, state()); },
  close() { browser = null; return {}; },
};
function state() {
  const s = {now: browser.clock - 1e6, errors: browser.errors, open: browser.requests.map((r, i) => [i, r.url, r.open]).filter(r => r[2]).map(r => r.slice(0, 2)),
    topics: browser.topics.map(t => [t.name, t.type]), idle: browser.next() === null, lacks: browser.lacks || null};
  browser.errors = [];
  return s;
}

readline.createInterface({input: process.stdin}).on('line', line => {
  let answer;
  try { const c = JSON.parse(line); answer = commands[c.op](c); } catch (e) { answer = {crash: String(e && e.stack || e)}; }
  process.stdout.write(JSON.stringify(answer) + '\n');
}).on('close', () => process.exit(0));
