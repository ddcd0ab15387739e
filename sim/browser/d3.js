'use strict';
// Stand-ins for d3 versions 3 and 4: selections, joins, transitions, timers,
// tree and force layouts, zoom and drag, as documented; positions given by the
// layouts are simpler (but distinct).

const {Element} = require('./dom.js');
const NS = {svg: 'http://www.w3.org/2000/svg', xhtml: 'http://www.w3.org/1999/xhtml', xlink: 'http://www.w3.org/1999/xlink'};

module.exports = function(version, browser) {
  const V3 = version === 3;
  const document = browser.document;
  const d3 = {version: V3 ? '3.5.17' : '4.13.0', event: null};
  const PRIV = V3 ? '__transition__' : '__transition';

  // --- names and values -------------------------------------------------
  function create(name, parent) {
    const i = name.indexOf(':');
    if (i >= 0) return document.createElementNS(NS[name.slice(0, i)] || NS.xhtml, name.slice(i + 1));
    return document.createElementNS(parent.namespaceURI || NS.xhtml, name);
  }
  const local = name => { const i = name.indexOf(':'); return i >= 0 && NS[name.slice(0, i)] ? name.slice(i + 1) : name; };
  const isFn = f => typeof f === 'function';

  // --- timers -----------------------------------------------------------
  const timers = [];
  let flushing = false, clockNow = null;
  function now() { return clockNow === null ? browser.now() : clockNow; }
  function timer(f, delay, time) {
    const t = {f, at: (time === undefined ? now() : time) + (delay || 0), live: true};
    timers.push(t);
    browser.wantFrame(flush);
    t.stop = () => { t.live = false; };
    t.restart = (g, d, w) => { t.f = g; t.at = (w === undefined ? now() : w) + (d || 0); if (!t.live) { t.live = true; if (timers.indexOf(t) < 0) timers.push(t); } browser.wantFrame(flush); };
    return t;
  }
  function flush() {
    clockNow = browser.now();
    for (let i = 0; i < timers.length; i++) {
      const t = timers[i];
      if (!t.live || clockNow < t.at) continue;
      browser.guard(() => { if (t.f(clockNow - t.at) === true) t.live = false; }, () => { t.live = false; });
    }
    clockNow = null;
    for (let i = timers.length; i--;) if (!timers[i].live) timers.splice(i, 1);
    if (timers.length) browser.wantFrame(flush);
  }
  if (V3) {
    d3.timer = function(f, delay, then) { timer(e => f(e) === true, delay, then); };
    d3.timer.flush = flush;
  } else {
    d3.now = now;
    d3.timer = timer;
    d3.timeout = (f, delay, time) => { const t = timer(e => { t.stop(); f(e); }, delay, time); return t; };
    d3.interval = (f, delay, time) => timer(f, delay, time);
  }

  // --- selections -------------------------------------------------------
  const selector = s => isFn(s) ? s : s == null ? () => undefined : function() { return this.querySelector(s); };
  const selectorAll = s => isFn(s) ? s : s == null ? () => [] : function() { return this.querySelectorAll(s); };
  const matcher = s => isFn(s) ? s : function() { return this.matches(s); };

  class Selection {
    constructor(groups, parents) {
      this._groups = groups; this._parents = parents;
      if (V3) groups.forEach((g, i) => { this[i] = g; g.parentNode = parents[i]; });
      if (V3) Object.defineProperty(this, 'length', {value: groups.length, configurable: true});
    }
    _call(f, node, i, g, j) { return V3 ? f.call(node, node.__data__, i, j) : f.call(node, node.__data__, i, g); }
    _each(f) {
      this._groups.forEach((g, j) => { for (let i = 0; i < g.length; i++) if (g[i]) f(g[i], i, g, j); });
      return this;
    }
    each(f) { return this._each((n, i, g, j) => this._call(f, n, i, g, j)); }
    call(f, ...a) { f.apply(this, [this, ...a]); return this; }
    empty() { return !this.node(); }
    node() { for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) return g[i]; return null; }
    nodes() { const r = []; this._each(n => r.push(n)); return r; }
    size() { let k = 0; this._each(() => ++k); return k; }
    select(s) {
      const f = selector(s);
      const groups = this._groups.map((g, j) => {
        const sub = new Array(g.length);
        for (let i = 0; i < g.length; i++) if (g[i]) {
          const n = this._call(f, g[i], i, g, j);
          if (n) { if ('__data__' in g[i]) n.__data__ = g[i].__data__; sub[i] = n; }
        }
        return sub;
      });
      return new Selection(groups, this._parents);
    }
    selectAll(s) {
      const f = selectorAll(s), groups = [], parents = [];
      this._each((n, i, g, j) => { groups.push([...this._call(f, n, i, g, j)]); parents.push(n); });
      return new Selection(groups, parents);
    }
    filter(s) {
      const f = matcher(s);
      return new Selection(this._groups.map((g, j) => {
        const r = [];
        for (let i = 0; i < g.length; i++) if (g[i] && this._call(f, g[i], i, g, j)) r.push(g[i]);
        return r;
      }), this._parents);
    }
    data(value, key) {
      if (!arguments.length) {
        if (!V3) { const r = []; this._each(n => r.push(n.__data__)); return r; }
        const g = this._groups[0]; return g && Array.from(g, n => n && n.__data__);
      }
      const update = [], enter = [], exit = [];
      this._groups.forEach((g, j) => {
        const parent = this._parents[j];
        let data = isFn(value) ? value.call(parent, parent && parent.__data__, j, this._parents) : value;
        if (data == null) throw new TypeError("Cannot read properties of " + data + " (reading 'length')");
        data = V3 ? data : Array.from(data);
        const n = g.length, m = data.length;
        const u = new Array(m), e = new Array(m), x = new Array(n);
        const put = i => { e[i] = {__data__: data[i], _parent: parent, _next: null,
          appendChild: c => parent.insertBefore(c, e[i]._next), insertBefore: (c, b) => parent.insertBefore(c, b),
          querySelector: s => parent.querySelector(s), querySelectorAll: s => parent.querySelectorAll(s),
          get namespaceURI() { return parent.namespaceURI; }, get ownerDocument() { return document; }}; };
        if (key) {
          const byKey = new Map(), keys = new Array(n);
          for (let i = 0; i < n; i++) if (g[i]) {
            const k = keys[i] = String(this._call(key, g[i], i, g, j));
            if (byKey.has(k)) x[i] = g[i]; else byKey.set(k, g[i]);
          }
          for (let i = 0; i < m; i++) {
            const k = String(key.call(V3 ? data : parent, data[i], i, V3 ? undefined : data));
            const node = byKey.get(k);
            if (!node) put(i);
            else if (node !== true) { u[i] = node; node.__data__ = data[i]; }
            else if (!V3) put(i);
            if (V3) byKey.set(k, true); else byKey.delete(k);
          }
          for (let i = 0; i < n; i++) if (g[i] && !x[i]) {
            const now = byKey.get(keys[i]);
            if (V3 ? now !== true : now === g[i]) x[i] = g[i];
          }
        } else {
          for (let i = 0; i < m; i++) if (i < n && g[i]) { u[i] = g[i]; u[i].__data__ = data[i]; } else put(i);
          for (let i = m; i < n; i++) if (g[i]) x[i] = g[i];
        }
        if (!V3) for (let i = 0, k = 0; i < m; i++) if (e[i]) {
          if (i >= k) k = i + 1;
          let next; while (!(next = u[k]) && ++k < m);
          e[i]._next = next || null;
        }
        update.push(u); enter.push(e); exit.push(x);
      });
      const s = new Selection(update, this._parents);
      s._enter = new Enter(enter, this._parents, update);
      s._exit = new Selection(exit, this._parents);
      return s;
    }
    datum(v) {
      if (!arguments.length) return this.node().__data__;
      return this._each((n, i, g, j) => {
        const d = isFn(v) ? this._call(v, n, i, g, j) : v;
        if (d == null) delete n.__data__; else n.__data__ = d;
      });
    }
    enter() { return this._enter || new Enter(this._groups.map(g => new Array(g.length)), this._parents, this._groups); }
    exit() { return this._exit || new Selection(this._groups.map(g => new Array(g.length)), this._parents); }
    merge(other) {
      return new Selection(this._groups.map((g, j) => {
        const o = other._groups[j] || [], r = new Array(g.length);
        for (let i = 0; i < g.length; i++) r[i] = g[i] || o[i];
        return r;
      }), this._parents);
    }
    append(name) {
      const f = isFn(name) ? name : null;
      return this.select(function() { const c = f ? f.apply(this, arguments) : create(name, this); this.appendChild(c); return c; });
    }
    insert(name, before) {
      const f = isFn(name) ? name : null, b = before === undefined ? null : selector(before);
      return this.select(function() {
        const c = f ? f.apply(this, arguments) : create(name, this);
        this.insertBefore(c, (b && b.apply(this, arguments)) || null);
        return c;
      });
    }
    remove() { return this._each(n => { if (n.parentNode) n.parentNode.removeChild(n); }); }
    _set(name, v, get, put, drop) {
      if (V3 && name && typeof name === 'object') { for (const k in name) this._set(k, name[k], get, put, drop); return this; }
      return this._each((n, i, g, j) => {
        const x = isFn(v) ? this._call(v, n, i, g, j) : v;
        if (x == null) drop(n, name); else put(n, name, x);
      });
    }
    attr(name, v) {
      if (typeof name === 'string') name = local(name);
      if (arguments.length < 2 && typeof name === 'string') return this.node().getAttribute(name);
      return this._set(name, v, null, (n, k, x) => n.setAttribute(local(k), x), (n, k) => n.removeAttribute(local(k)));
    }
    style(name, v, p) {
      if (arguments.length < 2 && typeof name === 'string') return this.node().style.getPropertyValue(name);
      return this._set(name, v, null, (n, k, x) => n.style.setProperty(k, x), (n, k) => n.style.removeProperty(k));
    }
    property(name, v) {
      if (arguments.length < 2 && typeof name === 'string') return this.node()[name];
      return this._set(name, v, null, (n, k, x) => { n[k] = x; }, (n, k) => { delete n[k]; });
    }
    classed(name, v) {
      if (arguments.length < 2 && typeof name === 'string') return name.trim().split(/\s+/).every(c => this.node().classList.contains(c));
      if (typeof name === 'object') { for (const k in name) this.classed(k, name[k]); return this; }
      return this._each((n, i, g, j) => {
        const on = isFn(v) ? this._call(v, n, i, g, j) : v;
        name.trim().split(/\s+/).forEach(c => n.classList.toggle(c, !!on));
      });
    }
    text(v) {
      if (!arguments.length) return this.node().textContent;
      return this._each((n, i, g, j) => { const x = isFn(v) ? this._call(v, n, i, g, j) : v; n.textContent = x == null ? '' : x; });
    }
    html(v) {
      if (!arguments.length) return this.node().innerHTML;
      return this._each((n, i, g, j) => { const x = isFn(v) ? this._call(v, n, i, g, j) : v; n.innerHTML = x == null ? '' : x; });
    }
    on(types, f) {
      if (V3 && types && typeof types === 'object') { for (const k in types) this.on(k, types[k]); return this; }
      if (arguments.length < 2) { const l = this.node()['__on' + types]; return l && l.f; }
      const sel = this;
      types.trim().split(/\s+/).forEach(type => {
        const name = type.split('.')[0], slot = '__on' + type;
        this._each((n, i, g, j) => {
          if (n[slot]) { n.removeEventListener(name, n[slot].l); delete n[slot]; }
          if (f == null) return;
          const l = function(e) {
            const before = d3.event; d3.event = e;
            try { if (V3) f.call(n, n.__data__, i, j); else f.call(n, n.__data__, i, g); } finally { d3.event = before; }
          };
          n[slot] = {l, f}; n.addEventListener(name, l);
        });
      });
      return this;
    }
    dispatch(type, p) { return this._each(n => n.dispatchEvent(Object.assign({type}, p))); }
    order() {
      this._groups.forEach(g => { for (let i = g.length - 1, next = g[i]; --i >= 0;) if (g[i]) { if (next && next !== g[i].nextSibling) next.parentNode.insertBefore(g[i], next); next = g[i]; } });
      return this;
    }
    sort(c) {
      c = c || d3.ascending;
      const groups = this._groups.map(g => Array.from(g).sort((a, b) => a && b ? c(a.__data__, b.__data__) : !a - !b));
      return new Selection(groups, this._parents).order();
    }
    raise() { return this._each(n => { if (n.nextSibling) n.parentNode.appendChild(n); }); }
    lower() { return this._each(n => { if (n.previousSibling) n.parentNode.insertBefore(n, n.parentNode.firstChild); }); }
    transition(arg) {
      const id = arg && arg._id !== undefined ? arg._id : V3 && inherit !== null ? inherit.id : ++ids;
      const like = arg && arg._id !== undefined ? arg : V3 ? inherit : null;
      this._each((n, i, g, j) => schedule(n, id, i, g, j, like && like.of ? like.of(n) : null));
      return new Transition(this._groups, this._parents, id);
    }
    interrupt() { return this._each(n => interrupt(n)); }
  }

  // Nodes to be created.
  class Enter extends Selection {
    constructor(groups, parents, update) { super(groups, parents); this._update = update; }
    select(s) {
      const f = selector(s);
      const groups = this._groups.map((g, j) => {
        const sub = new Array(g.length);
        for (let i = 0; i < g.length; i++) if (g[i]) {
          const n = V3 ? f.call(this._parents[j], g[i].__data__, i, j) : f.call(g[i], g[i].__data__, i, g);
          if (n) { n.__data__ = g[i].__data__; sub[i] = n; if (V3) this._update[j][i] = n; }
        }
        return sub;
      });
      return new Selection(groups, this._parents);
    }
    insert(name, before) {
      if (V3 && arguments.length < 2) {
        const update = this._update;
        return super.insert(name, function(d, i, j) {
          for (let k = i + 1; k < update[j].length; k++) if (update[j][k]) return update[j][k];
          return null;
        });
      }
      return super.insert.apply(this, arguments);
    }
  }

  // --- transitions ------------------------------------------------------
  let ids = 0, inherit = null;
  const easeOf = t => t < 0 ? 0 : t > 1 ? 1 : t * t * (3 - 2 * t);

  function schedule(node, id, i, g, j, like) {
    const lock = node[PRIV] || (node[PRIV] = {count: 0, active: 0, all: {}});
    if (lock.all[id]) return lock.all[id];
    const t = lock.all[id] = {id, node, i, g, j, tween: [], on: {}, state: 'scheduled',
      time: like ? like.time : now(), delay: like ? like.delay : 0, duration: like ? like.duration : 250, ease: like ? like.ease : easeOf};
    lock.count++;
    t.timer = timer(elapsed => {
      t.timer.at = t.time + t.delay;
      if (t.delay <= elapsed) { t.timer.stop(); start(t, elapsed - t.delay); }
      else t.timer.restart(e => { t.timer.stop(); start(t, e); }, t.delay, t.time);
    }, 0, t.time);
    return t;
  }
  function fire(t, type) {
    for (const k in t.on) if (k === type || k.startsWith(type + '.')) {
      const f = t.on[k];
      browser.guard(() => { V3 ? f.call(t.node, t.node.__data__, t.i, t.j) : f.call(t.node, t.node.__data__, t.i, t.g); });
    }
  }
  function drop(t) {
    const lock = t.node[PRIV];
    t.timer.stop();
    if (!lock || lock.all[t.id] !== t) return;
    delete lock.all[t.id];
    if (!--lock.count) delete t.node[PRIV];
  }
  function start(t, elapsed) {
    const lock = t.node[PRIV];
    if (!lock || lock.all[t.id] !== t) return;
    if (lock.active > t.id) return drop(t);
    for (const k in lock.all) {
      const o = lock.all[k];
      if (o === t) continue;
      if (o.state === 'running') { o.state = 'ended'; o.timer.stop(); delete lock.all[k]; lock.count--; fire(o, 'interrupt'); }
      else if (+k < t.id) { o.state = 'ended'; o.timer.stop(); delete lock.all[k]; lock.count--; if (!V3) fire(o, 'interrupt'); }
    }
    lock.active = t.id;
    t.state = 'running';
    fire(t, 'start');
    t.run = [];
    t.tween.forEach(w => { const f = V3 ? w.f.call(t.node, t.node.__data__, t.i, t.j) : w.f.call(t.node, t.node.__data__, t.i, t.g); if (isFn(f)) t.run.push(f); });
    t.timer.restart(e => tick(t, e), t.delay, t.time);
    // The first step follows at once, in the same frame.
    tick(t, elapsed);
  }
  function tick(t, elapsed) {
    if (t.state !== 'running') { t.timer.stop(); return; }
    const x = t.duration > 0 ? elapsed / t.duration : 1;
    const e = x >= 1 ? 1 : t.ease(x);
    t.run.forEach(f => f.call(t.node, e));
    if (x >= 1) {
      t.state = V3 ? 'running' : 'ending';
      fire(t, 'end');
      t.state = 'ended';
      drop(t);
    }
  }
  function interrupt(node) {
    const lock = node[PRIV];
    if (!lock) return;
    for (const k in lock.all) {
      const t = lock.all[k];
      if (V3 && t.state !== 'running') continue;
      const was = t.state; t.state = 'ended'; drop(t);
      if (was === 'running') fire(t, 'interrupt');
    }
  }
  function interpolate(a, b) {
    if (typeof b === 'number') return t => +a * (1 - t) + b * t;
    const re = /[-+]?(?:\d+\.?\d*|\.?\d+)(?:[eE][-+]?\d+)?/g;
    const from = (String(a).match(re) || []).map(Number);
    let k;
    return t => { if (t >= 1) return b; k = 0; return String(b).replace(re, m => { const i = k++; return i < from.length ? String(from[i] * (1 - t) + +m * t) : m; }); };
  }

  class Transition extends Selection {
    constructor(groups, parents, id) { super(groups, parents); this._id = id; this.id = id; }
    of(n) { return n && n[PRIV] && n[PRIV].all[this._id]; }
    _t(f) { return this._each((n, i, g, j) => { const t = this.of(n); if (t) f(t, n, i, g, j); else if (!V3) throw new Error('transition ' + this._id + ' not found'); }); }
    select(s) {
      const f = selector(s), id = this._id;
      const groups = this._groups.map((g, j) => {
        const sub = new Array(g.length);
        for (let i = 0; i < g.length; i++) if (g[i]) {
          const n = this._call(f, g[i], i, g, j);
          if (n) { if ('__data__' in g[i]) n.__data__ = g[i].__data__; sub[i] = n; schedule(n, id, i, sub, j, this.of(g[i])); }
        }
        return sub;
      });
      return new Transition(groups, this._parents, id);
    }
    selectAll(s) {
      const f = selectorAll(s), groups = [], parents = [];
      this._each((n, i, g, j) => {
        const c = [...this._call(f, n, i, g, j)], like = this.of(n);
        c.forEach((m, k) => schedule(m, this._id, k, c, groups.length, like));
        groups.push(c); parents.push(n);
      });
      return new Transition(groups, parents, this._id);
    }
    filter(s) { const r = super.filter(s); return new Transition(r._groups, r._parents, this._id); }
    selection() { return new Selection(this._groups, this._parents); }
    transition() {
      const id = ++ids;
      this._each((n, i, g, j) => { const o = this.of(n); schedule(n, id, i, g, j, o ? {time: o.time, delay: o.delay + o.duration, duration: o.duration, ease: o.ease} : null); });
      return new Transition(this._groups, this._parents, id);
    }
    _param(k, v) {
      if (v === undefined) { const t = this.of(this.node()); return t && t[k]; }
      return this._t((t, n, i, g, j) => { t[k] = +(isFn(v) ? this._call(v, n, i, g, j) : v); if (V3 && k === 'duration') t[k] = Math.max(1, t[k]); });
    }
    delay(v) { return this._param('delay', v); }
    duration(v) { return this._param('duration', v); }
    ease(v) { if (!arguments.length) return easeOf; return this._t(t => { if (isFn(v)) t.ease = v; }); }
    tween(name, f) {
      return this._t(t => { t.tween = t.tween.filter(w => w.name !== name); if (f != null) t.tween.push({name, f}); });
    }
    _to(kind, name, v, get, put, del) {
      if (V3 && name && typeof name === 'object') { for (const k in name) this._to(kind, k, name[k], get, put, del); return this; }
      return this.tween(kind + '.' + name, function() {
        const b = isFn(v) ? v.apply(this, arguments) : v;
        if (b == null) { del(this, name); return null; }
        const a = get(this, name), s = String(b);
        if (a === s) return null;
        const f = interpolate(a, typeof b === 'number' ? b : s);
        return function(t) { put(this, name, f(t)); };
      });
    }
    attr(name, v) {
      return this._to('attr', name, v, (n, k) => n.getAttribute(local(k)), (n, k, x) => n.setAttribute(local(k), x), (n, k) => n.removeAttribute(local(k)));
    }
    style(name, v) {
      return this._to('style', name, v, (n, k) => n.style.getPropertyValue(k), (n, k, x) => n.style.setProperty(k, x), (n, k) => n.style.removeProperty(k));
    }
    attrTween(name, f) { return this.tween('attr.' + name, function() { const g = f.apply(this, arguments.length ? [arguments[0], arguments[1], this.getAttribute(name)] : []); return g && function(t) { this.setAttribute(local(name), g(t)); }; }); }
    text(v) { return this.tween('text', function() { const b = isFn(v) ? v.apply(this, arguments) : v; this.textContent = b == null ? '' : b; }); }
    remove() {
      const id = this._id;
      return this.on_('end.remove' + (V3 ? '' : ''), function() {
        const lock = this[PRIV];
        if (V3 ? lock.count < 2 : Object.keys(lock.all).every(k => +k === id)) if (this.parentNode) this.parentNode.removeChild(this);
      });
    }
    on_(type, f) { return this._t(t => { if (f == null) delete t.on[type]; else t.on[type] = f; }); }
    on(type, f) { if (V3) throw new TypeError('transition.on is not a function'); return this.on_(type, f); }
    each(type, f) {
      if (V3 && arguments.length >= 2) return this.on_(type, f);
      if (!V3) return super.each(type);
      const before = inherit, self = this;
      inherit = {id: this._id, of: n => self.of(n)};
      try { this._each((n, i, g, j) => { type.call(n, n.__data__, i, j); }); } finally { inherit = before; }
      return this;
    }
    interrupt() { return this._each(n => interrupt(n)); }
  }

  d3.select = s => typeof s === 'string' ? new Selection([[document.querySelector(s)]], [document.documentElement]) : new Selection([[s]], [document.documentElement]);
  d3.selectAll = s => typeof s === 'string' ? new Selection([document.querySelectorAll(s)], [document.documentElement]) : new Selection([Array.from(s)], [null]);
  d3.selection = Selection;
  d3.transition = s => (s && s.transition ? s : d3.select(document.documentElement)).transition();
  d3.mouse = () => [0, 0];

  // What selections have in d3 and not here leaves a run undecided.
  const lacking = (C, what, l) => l.forEach(k => { if (!(k in C.prototype)) Object.defineProperty(C.prototype, k, {get() { return browser.lacking(what + '.' + k); }}); });
  lacking(Selection, 'selection', ['clone', 'dispatch', 'merge', 'raise', 'lower', 'nodes']);
  lacking(Transition, 'transition', ['styleTween', 'textTween', 'easeVarying', 'end', 'merge']);

  // --- arrays -----------------------------------------------------------
  const pick = better => (a, f) => {
    let r;
    (a || []).forEach((d, i) => { const v = f ? f.call(a, d, i, a) : d; if (v != null && v >= v && (r === undefined || better(v, r))) r = v; });
    return r;
  };
  d3.max = pick((v, r) => v > r);
  d3.min = pick((v, r) => v < r);
  d3.extent = (a, f) => [d3.min(a, f), d3.max(a, f)];
  d3.sum = (a, f) => (a || []).reduce((s, d, i) => { const v = +(f ? f(d, i, a) : d); return v ? s + v : s; }, 0);
  d3.mean = (a, f) => { let s = 0, n = 0; (a || []).forEach((d, i) => { const v = f ? f(d, i, a) : d; if (v != null && !isNaN(+v)) { s += +v; n++; } }); return n ? s / n : undefined; };
  d3.ascending = (a, b) => a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN;
  d3.descending = (a, b) => d3.ascending(b, a);
  d3.range = (a, b, s) => { if (b === undefined) { b = a; a = 0; } s = s || 1; const r = []; for (let x = a; s > 0 ? x < b : x > b; x += s) r.push(x); return r; };
  d3.merge = l => [].concat.apply([], l);
  d3.zip = (...l) => d3.range(d3.min(l, x => x.length) || 0).map(i => l.map(x => x[i]));
  d3.keys = o => Object.keys(o);
  d3.values = o => Object.keys(o).map(k => o[k]);
  d3.entries = o => Object.keys(o).map(k => ({key: k, value: o[k]}));
  class D3Map {
    constructor(o, f) {
      this.m = new Map();
      if (o instanceof D3Map) o.each((v, k) => this.set(k, v));
      else if (Array.isArray(o) || (o && typeof o.length === 'number')) Array.from(o).forEach((v, i) => this.set(f ? f.call(o, v, i, o) : i, v));
      else if (o) for (const k in o) this.set(k, o[k]);
    }
    has(k) { return this.m.has(String(k)); }
    get(k) { return this.m.get(String(k)); }
    set(k, v) { this.m.set(String(k), v); return V3 ? v : this; }
    remove(k) { return this.m.delete(String(k)); }
    keys() { return [...this.m.keys()]; }
    values() { return [...this.m.values()]; }
    entries() { return [...this.m].map(([key, value]) => ({key, value})); }
    size() { return this.m.size; }
    empty() { return !this.m.size; }
    each(f) { this.m.forEach((v, k) => f(v, k, this)); }
    forEach(f) { this.m.forEach((v, k) => f.call(this, k, v)); }
    clear() { this.m.clear(); }
  }
  d3.map = (o, f) => new D3Map(o, f);
  d3.set = a => { const m = new D3Map(); const s = {has: k => m.has(k), add: k => { m.set(k, k); return V3 ? k : s; }, remove: k => m.remove(k), values: () => m.keys(), size: () => m.size(), empty: () => m.empty(), forEach: f => m.keys().forEach(f), each: f => m.keys().forEach(k => f(k, k, s))}; (a || []).forEach(k => s.add(k)); return s; };

  // --- scales and colours -----------------------------------------------
  function ordinal() {
    let domain = [], range = [];
    const s = x => { let i = domain.indexOf(x); if (i < 0) i = domain.push(x) - 1; return range.length ? range[i % range.length] : undefined; };
    s.domain = d => { if (d === undefined) return domain; domain = []; d.forEach(x => { if (domain.indexOf(x) < 0) domain.push(x); }); return s; };
    s.range = r => { if (r === undefined) return range; range = r.slice(); return s; };
    return s;
  }
  function linear() {
    let domain = [0, 1], range = [0, 1];
    const s = x => { const k = domain[1] - domain[0], t = k ? (x - domain[0]) / k : NaN; return isNaN(t) ? (V3 ? range[0] : (range[0] + range[1]) / 2) : range[0] + (range[1] - range[0]) * t; };
    s.domain = d => { if (d === undefined) return domain; domain = d.map(Number); return s; };
    s.range = r => { if (r === undefined) return range; range = r.slice(); return s; };
    s.nice = s.clamp = () => s;
    return s;
  }
  const palette = ['#1f77b4', '#ff7f0e', '#2ca02c', '#d62728', '#9467bd', '#8c564b', '#e377c2', '#7f7f7f', '#bcbd22', '#17becf'];
  d3.rgb = d3.color = c => ({toString: () => String(c), brighter: () => d3.rgb(c), darker: () => d3.rgb(c)});
  if (V3) d3.scale = {ordinal, linear, category10: () => ordinal().range(palette), category20: () => ordinal().range(palette)};
  else {
    Object.assign(d3, {scaleOrdinal: r => ordinal().range(Array.isArray(r) ? r : []), scaleLinear: linear, schemeCategory10: palette});
    const byte = t => Math.max(0, Math.min(255, Math.round(t)));
    ['Blues', 'Reds', 'Greens', 'Greys', 'Oranges', 'Purples'].forEach((n, i) => { d3['interpolate' + n] = t => { t = Math.max(0, Math.min(1, t)); return 'rgb(' + [255 - 255 * t, 255 - 155 * t, 255 - (i ? 255 : 90) * t].map(byte).join(', ') + ')'; }; });
    ['RdBu', 'RdYlGn', 'RdYlBu', 'PiYG'].forEach(n => { d3['interpolate' + n] = t => { t = Math.max(0, Math.min(1, t)); return 'rgb(' + [200 - 180 * t, 100 + 20 * t, 20 + 200 * t].map(byte).join(', ') + ')'; }; });
    Object.assign(d3, {easeLinear: t => t, easeCubic: easeOf, easeCubicInOut: easeOf, interpolateString: interpolate});
  }
  d3.interpolate = (a, b) => interpolate(a, b);
  d3.interpolateNumber = (a, b) => t => +a * (1 - t) + b * t;
  d3.format = s => { const m = /^\.(\d+)f$/.exec(s || ''); return m ? x => (+x).toFixed(+m[1]) : s ? browser.lacking('d3.format(' + s + ')') : String; };

  // --- requests ---------------------------------------------------------
  function request(url, done, parse) {
    const cb = done || (() => {});
    browser.request(String(url), (status, body) => {
      if (status !== 200) return V3 ? cb({status}) : cb({status, type: 'error'});
      let value;
      try { value = parse(body); } catch (e) { return cb(e); }
      cb(null, value);
    });
  }
  const requester = parse => (url, cb) => {
    const on = {};
    const x = {get: f => { request(url, f || ((e, v) => { const h = e ? on.error : on.load; if (h) h(e || v); }), parse); return x; },
      on: (t, f) => { on[t] = f; return x; }, header: () => x, mimeType: () => x, timeout: () => x};
    if (cb) x.get(cb);
    return x;
  };
  d3.json = requester(s => browser.parse(s));
  d3.text = requester(s => s);

  // --- trees ------------------------------------------------------------
  // Leaves take one column each; others stand over the middle of their parts.
  function columns(root, children) {
    let leaf = 0;
    const xs = new Map();
    (function visit(n) {
      const c = children(n);
      if (!c || !c.length) { xs.set(n, leaf++); return; }
      c.forEach(visit);
      xs.set(n, (xs.get(c[0]) + xs.get(c[c.length - 1])) / 2);
    })(root);
    return {xs, leaves: leaf};
  }
  function layout(size, nodeSize, root, children, depth) {
    const {xs, leaves} = columns(root, children);
    let deepest = 0;
    xs.forEach((x, n) => { deepest = Math.max(deepest, depth(n)); });
    const origin = xs.get(root);
    xs.forEach((x, n) => {
      if (nodeSize) { n.x = (x - origin) * nodeSize[0]; n.y = depth(n) * nodeSize[1]; }
      else { n.x = (x + .5) / leaves * size[0]; n.y = deepest ? depth(n) / deepest * size[1] : 0; }
    });
  }
  function treeOptions(tree, o) {
    tree.size = v => { if (v === undefined) return o.size; o.size = v; o.nodeSize = null; return tree; };
    tree.nodeSize = v => { if (v === undefined) return o.nodeSize; o.nodeSize = v; return tree; };
    tree.separation = v => { if (v === undefined) return o.sep; o.sep = v; return tree; };
    return tree;
  }
  if (V3) {
    d3.layout = {};
    d3.layout.tree = d3.layout.cluster = () => {
      const o = {size: [1, 1], nodeSize: null, children: d => d.children};
      const nodes = root => {
        const stack = [root], list = [];
        root.depth = 0;
        let n;
        while ((n = stack.pop()) != null) {
          list.push(n);
          const c = o.children.call(tree, n, n.depth);
          let k;
          if (c && (k = c.length)) {
            while (--k >= 0) { stack.push(c[k]); c[k].parent = n; c[k].depth = n.depth + 1; }
            n.children = c;
          } else delete n.children;
        }
        layout(o.size, o.nodeSize, root, d => d.children, d => d.depth);
        return list;
      };
      const tree = treeOptions(root => nodes(root), o);
      tree.nodes = nodes;
      tree.children = f => { if (f === undefined) return o.children; o.children = f; return tree; };
      tree.links = l => d3.merge(l.map(p => (p.children || []).map(c => ({source: p, target: c}))));
      return tree;
    };
    d3.svg = {diagonal: () => {
      let source = d => d.source, target = d => d.target, project = d => [d.x, d.y];
      const f = function(d, i) {
        const a = source.call(this, d, i), b = target.call(this, d, i), m = (a.y + b.y) / 2;
        const p = [a, {x: a.x, y: m}, {x: b.x, y: m}, b].map(project);
        return 'M' + p[0] + 'C' + p[1] + ' ' + p[2] + ' ' + p[3];
      };
      f.source = v => { source = isFn(v) ? v : () => v; return f; };
      f.target = v => { target = isFn(v) ? v : () => v; return f; };
      f.projection = v => { if (v === undefined) return project; project = v; return f; };
      return f;
    }, line: () => {
      let x = d => d[0], y = d => d[1];
      const f = data => data.length ? 'M' + data.map((d, i) => x(d, i) + ',' + y(d, i)).join('L') : null;
      f.x = v => { x = v; return f; }; f.y = v => { y = v; return f; }; f.interpolate = f.tension = () => f;
      return f;
    }};
  } else {
    class Hier {
      constructor(data) { this.data = data; this.depth = 0; this.height = 0; this.parent = null; }
      each(f) { const q = [this]; for (let i = 0; i < q.length; i++) { f(q[i]); if (q[i].children) q.push(...q[i].children); } return this; }
      eachBefore(f) { f(this); (this.children || []).forEach(c => c.eachBefore(f)); return this; }
      eachAfter(f) { (this.children || []).forEach(c => c.eachAfter(f)); f(this); return this; }
      descendants() { const r = []; this.each(n => r.push(n)); return r; }
      ancestors() { const r = []; for (let n = this; n; n = n.parent) r.push(n); return r; }
      leaves() { const r = []; this.eachBefore(n => { if (!n.children) r.push(n); }); return r; }
      links() { const r = []; this.each(n => { if (n !== this) r.push({source: n.parent, target: n}); }); return r; }
      sort(c) { return this.eachBefore(n => { if (n.children) n.children.sort(c); }); }
      sum(f) { return this.eachAfter(n => { n.value = (n.children || []).reduce((s, c) => s + c.value, +f(n.data) || 0); }); }
      count() { return this.eachAfter(n => { n.value = n.children ? n.children.reduce((s, c) => s + c.value, 0) : 1; }); }
      copy() { return d3.hierarchy(this).eachBefore(n => { n.data = n.data.data; }); }
    }
    d3.hierarchy = (data, children) => {
      children = children || (d => d.children);
      const make = (d, parent) => {
        const n = new Hier(d); n.parent = parent; n.depth = parent ? parent.depth + 1 : 0;
        const c = children(d);
        if (c && c.length) { n.children = Array.from(c, x => make(x, n)); n.height = 1 + Math.max(...n.children.map(x => x.height)); }
        return n;
      };
      return make(data, null);
    };
    d3.tree = d3.cluster = () => {
      const o = {size: [1, 1], nodeSize: null};
      return treeOptions(root => { layout(o.size, o.nodeSize, root, n => n.children, n => n.depth); return root; }, o);
    };
    d3.linkHorizontal = d3.linkVertical = undefined;
  }

  // --- events of behaviours ---------------------------------------------
  function dispatcher(types) {
    const on = {};
    return {on(type, f) { if (f === undefined) return on[type]; if (f === null) delete on[type]; else on[type] = f; },
      fire(type, event, node, args) {
        const before = d3.event; d3.event = event; event.type = type;
        try { for (const k in on) if (k === type || k.startsWith(type + '.')) on[k].apply(node, args); } finally { d3.event = before; }
      }};
  }
  if (V3) {
    d3.behavior = {};
    d3.behavior.zoom = () => {
      const ev = dispatcher();
      let view = {x: 0, y: 0, k: 1}, extent = [0, Infinity];
      const send = node => { ev.fire('zoom', {scale: view.k, translate: [view.x, view.y]}, node, [node.__data__, 0]); };
      const zoom = g => g.each(function() { this.__zoom = (x, y, k) => { view = {x, y, k: Math.max(extent[0], Math.min(extent[1], k))}; send(this); }; });
      zoom.on = (t, f) => { if (f === undefined) return ev.on(t); ev.on(t, f); return zoom; };
      zoom.translate = v => { if (v === undefined) return [view.x, view.y]; view = {x: +v[0], y: +v[1], k: view.k}; return zoom; };
      zoom.scale = v => { if (v === undefined) return view.k; view = {x: view.x, y: view.y, k: Math.max(extent[0], Math.min(extent[1], +v))}; return zoom; };
      zoom.scaleExtent = v => { if (v === undefined) return extent; extent = [+v[0], +v[1]]; return zoom; };
      zoom.size = zoom.center = zoom.x = zoom.y = zoom.duration = () => zoom;
      zoom.event = g => g.each(function() {
        const to = view, node = this;
        if (inherit !== null) {
          d3.select(node).transition()
            .each('start.zoom', function() { view = this.__chart__ || {x: 0, y: 0, k: 1}; })
            .tween('zoom:zoom', function() {
              const from = view;
              return function(t) { this.__chart__ = view = t >= 1 ? to : {x: from.x + (to.x - from.x) * t, y: from.y + (to.y - from.y) * t, k: from.k + (to.k - from.k) * t}; send(this); };
            });
        } else { node.__chart__ = view; send(node); }
      });
      return zoom;
    };
    const drag = () => {
      const ev = dispatcher();
      const d = g => g.each(function() { this.__drag = ev; });
      d.on = (t, f) => { if (f === undefined) return ev.on(t); ev.on(t, f); return d; };
      d.origin = () => d;
      return d;
    };
    d3.behavior.drag = drag;
    d3.layout.force = () => {
      const ev = dispatcher(), o = {size: [1, 1], nodes: [], links: [], alpha: 0};
      const force = {};
      let dragging = null;
      ['linkDistance', 'linkStrength', 'friction', 'charge', 'chargeDistance', 'gravity', 'theta', 'size', 'nodes', 'links'].forEach(k => {
        force[k] = v => { if (v === undefined) return o[k]; o[k] = v; return force; };
      });
      force.distance = force.linkDistance;
      force.on = (t, f) => { if (f === undefined) return ev.on(t); ev.on(t, f); return force; };
      force.alpha = x => {
        if (x === undefined) return o.alpha;
        if (o.alpha) { o.alpha = x > 0 ? x : 0; } else if (x > 0) { o.alpha = x; ev.fire('start', {alpha: x}, force, [{type: 'start', alpha: x}]); timer(() => force.tick()); }
        return force;
      };
      force.tick = () => {
        if ((o.alpha *= .8) < .005) { o.alpha = 0; ev.fire('end', {alpha: 0}, force, [{type: 'end', alpha: 0}]); return true; }
        o.nodes.forEach((n, i) => {
          if (n.fixed) { n.x = n.px; n.y = n.py; return; }
          // Everything drifts to a place of its own.
          const gx = o.size[0] * (.05 + .9 * ((i * 0.6180339887) % 1)), gy = o.size[1] * (.05 + .9 * ((i * 0.7548776662) % 1));
          n.px = n.x; n.py = n.y;
          n.x += (gx - n.x) * .4; n.y += (gy - n.y) * .4;
        });
        ev.fire('tick', {alpha: o.alpha}, force, [{type: 'tick', alpha: o.alpha}]);
        return false;
      };
      force.start = () => {
        o.nodes.forEach((n, i) => { n.index = i; n.weight = 0; });
        o.links.forEach(l => {
          if (typeof l.source === 'number') l.source = o.nodes[l.source];
          if (typeof l.target === 'number') l.target = o.nodes[l.target];
          ++l.source.weight; ++l.target.weight;
        });
        o.nodes.forEach((n, i) => {
          if (isNaN(n.x)) n.x = o.size[0] * ((i * .35 + .1) % 1);
          if (isNaN(n.y)) n.y = o.size[1] * ((i * .21 + .2) % 1);
          if (isNaN(n.px)) n.px = n.x;
          if (isNaN(n.py)) n.py = n.y;
        });
        o.links.forEach((l, i) => { if (isFn(o.linkDistance)) o.linkDistance.call(force, l, i); if (isFn(o.linkStrength)) o.linkStrength.call(force, l, i); });
        return force.resume();
      };
      force.resume = () => force.alpha(.1);
      force.stop = () => force.alpha(0);
      force.drag = function() {
        if (!dragging) dragging = drag()
          .on('dragstart.force', d => { d.fixed |= 2; })
          .on('drag.force', d => { d.px = d3.event.x; d.py = d3.event.y; force.resume(); })
          .on('dragend.force', d => { d.fixed &= ~6; });
        if (!arguments.length) return dragging;
        this.on('mouseover.force', d => { d.fixed |= 4; d.px = d.x; d.py = d.y; }).on('mouseout.force', d => { d.fixed &= ~4; }).call(dragging);
      };
      return force;
    };
  } else {
    d3.zoomIdentity = {k: 1, x: 0, y: 0};
    d3.zoomTransform = n => n.__zoomed || d3.zoomIdentity;
    d3.zoom = () => {
      const ev = dispatcher();
      let extent = [0, Infinity];
      const zoom = g => g.each(function() { this.__zoom = (x, y, k) => { this.__zoomed = {x, y, k: Math.max(extent[0], Math.min(extent[1], k))}; ev.fire('zoom', {transform: this.__zoomed}, this, [this.__data__]); }; });
      zoom.on = (t, f) => { if (f === undefined) return ev.on(t); ev.on(t, f); return zoom; };
      zoom.scaleExtent = v => { extent = v; return zoom; };
      zoom.extent = zoom.translateExtent = zoom.duration = zoom.filter = () => zoom;
      return zoom;
    };
  }
  // What d3 has and this stand-in has not leaves a run undecided.
  const other = V3 ? ['tree', 'cluster', 'hierarchy', 'zoom', 'drag', 'scaleLinear', 'scaleOrdinal', 'interpolateBlues', 'interpolateReds', 'interpolateRdBu', 'linkHorizontal', 'forceSimulation']
    : ['layout', 'behavior', 'svg', 'scale'];
  // (names that are no members there are undefined, as in d3)
  const members = {'d3.layout': 'bundle chord histogram pack partition pie stack treemap hierarchy',
    'd3.behavior': 'drag zoom', 'd3.svg': 'area arc symbol symbolTypes chord axis brush mouse touches',
    'd3.scale': 'sqrt pow log quantize threshold quantile identity category20b category20c'};
  const none = 'domain size nodeSize scaleExtent translate on attr append projection style call data enter exit remove duration delay each filter node nodes links separation x y charge linkDistance gravity friction start stop center key property'.split(' ');
  const guarded = (o, name) => new Proxy(o, {get(t, k) {
    if (k in t || typeof k !== 'string' || (name === 'd3' && other.indexOf(k) >= 0) || k === 'then' || k === 'toJSON') return t[k];
    if (name in members ? members[name].split(' ').indexOf(k) < 0 : none.indexOf(k) >= 0) return undefined;
    browser.lacking(name + '.' + k);
  }});
  if (!('event' in d3)) d3.event = null;
  if (V3) ['layout', 'behavior', 'svg', 'scale'].forEach(k => { d3[k] = guarded(d3[k], 'd3.' + k); });
  return guarded(d3, 'd3');
};
