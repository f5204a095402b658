'use strict';
// A stand-in for the parts of d3 (versions 3 and 4) that draw trees and graphs. Where the versions differ (entering
// elements join the update selection in version 3 only, hierarchies, names of functions), so does this.
const {Element, makeEvent} = require('./dom.js');

const SVG = new Set(['svg', 'g', 'path', 'rect', 'circle', 'line', 'text', 'tspan', 'defs', 'marker', 'title', 'ellipse', 'polygon']);

module.exports = function (version, document, loop, files) {
  const v3 = version === 3;
  const d3 = {version: v3 ? '3.5.17' : '4.13.0', event: null};
  const fn = (v, e, i, g) => typeof v === 'function' ? v.call(e, e.__data__, i, g) : v;

  // Selections

  class Selection {
    constructor(groups, parents) { this._groups = groups; this._parents = parents || [document.documentElement]; }
    _each(f) { this._groups.forEach((g, j) => g.forEach((e, i) => { if (e) f(e, i, j, g); })); return this; }
    each(f) { return this._each((e, i, j, g) => f.call(e, e.__data__, i, v3 ? j : g)); }
    nodes() { const out = []; this._each(e => out.push(e)); return out; }
    node() { return this.nodes()[0] || null; }
    size() { return this.nodes().length; }
    empty() { return !this.size(); }
    call(f, ...args) { f(this, ...args); return this; }
    attr(n, v) {
      if (arguments.length < 2) {
        if (typeof n === 'object') { Object.keys(n).forEach(k => this.attr(k, n[k])); return this; }
        return this.node() && this.node().getAttribute(n);
      }
      return this._each((e, i, j, g) => { const x = fn(v, e, i, v3 ? j : g); if (x == null) e.removeAttribute(n); else e.setAttribute(n, x); });
    }
    style(n, v) {
      if (arguments.length < 2) {
        if (typeof n === 'object') { Object.keys(n).forEach(k => this.style(k, n[k])); return this; }
        return this.node() && this.node().style.getPropertyValue(n);
      }
      return this._each((e, i, j, g) => { const x = fn(v, e, i, v3 ? j : g); if (x == null) e.style.removeProperty(n); else e.style.setProperty(n, x); });
    }
    classed(n, v) {
      const names = String(n).trim().split(/\s+/);
      if (arguments.length < 2) { const e = this.node(); return !!e && names.every(c => e.classList.contains(c)); }
      return this._each((e, i, j, g) => names.forEach(c => e.classList.toggle(c, !!fn(v, e, i, v3 ? j : g))));
    }
    property(n, v) { if (arguments.length < 2) return this.node()[n]; return this._each((e, i, j, g) => { e[n] = fn(v, e, i, v3 ? j : g); }); }
    text(v) { if (!arguments.length) return this.node().textContent; return this._each((e, i, j, g) => { const x = fn(v, e, i, v3 ? j : g); e.textContent = x == null ? '' : x; }); }
    html(v) { if (!arguments.length) return this.node().innerHTML; return this._each((e, i, j, g) => { const x = fn(v, e, i, v3 ? j : g); e.innerHTML = x == null ? '' : x; }); }
    datum(v) { if (!arguments.length) return this.node() && this.node().__data__; return this._each((e, i) => { e.__data__ = fn(v, e, i); }); }
    remove() { return this._each(e => { if (e.parentNode) e.parentNode.removeChild(e); }); }
    raise() { return this._each(e => { if (e.parentNode) e.parentNode.appendChild(e); }); }
    lower() { return this._each(e => { if (e.parentNode) e.parentNode.insertBefore(e, e.parentNode.firstChild); }); }
    order() { return this; }
    sort(f) { this._groups.forEach(g => g.sort((a, b) => f(a.__data__, b.__data__))); return this; }
    filter(f) {
      const test = typeof f === 'function' ? f : function () { return this.matches(f); };
      return new this.constructor(this._groups.map((g, j) => g.filter((e, i) => e && test.call(e, e.__data__, i, v3 ? j : g))), this._parents);
    }
    merge(o) {
      return new Selection(this._groups.map((g, j) => {
        const out = g.slice(), other = o._groups[j] || [];
        other.forEach((e, i) => { if (e && !out[i]) out[i] = e; });
        return out;
      }), this._parents);
    }
    select(s) {
      return new this.constructor(this._groups.map((g, j) => g.map((e, i) => {
        if (!e) return null;
        const c = typeof s === 'function' ? s.call(e, e.__data__, i, j) : e.querySelector(s);
        if (c && '__data__' in e) c.__data__ = e.__data__;
        return c;
      })), this._parents)._inherit(this);
    }
    selectAll(s) {
      const groups = [], parents = [];
      this._each((e, i, j) => { groups.push(Array.from(typeof s === 'function' ? s.call(e, e.__data__, i, j) : e.querySelectorAll(s))); parents.push(e); });
      return new this.constructor(groups, parents)._inherit(this);
    }
    _inherit() { return this; }
    _create(name, parent) {
      name = name.replace(/^svg:/, '');
      const svg = SVG.has(name) && !(name === 'title' && parent && !/svg/.test(parent.namespaceURI));
      return svg ? document.createElementNS('http://www.w3.org/2000/svg', name) : document.createElement(name);
    }
    append(name) {
      return this.select(function (d, i, j) {
        return this.appendChild(typeof name === 'function' ? name.call(this, d, i, j) : Selection.prototype._create(name, this));
      });
    }
    insert(name, before) {
      return this.select(function (d, i, j) {
        const ref = before == null ? null : typeof before === 'function' ? before.call(this, d, i, j) : this.querySelector(before);
        const el = typeof name === 'function' ? name.call(this, d, i, j) : Selection.prototype._create(name, this);
        return (ref ? ref.parentNode : this).insertBefore(el, ref);
      });
    }
    data(value, key) {
      if (!arguments.length) return this.nodes().map(e => e.__data__);
      const enter = [], update = [], exit = [];
      this._groups.forEach((g, j) => {
        const parent = this._parents[j];
        const data = Array.from(typeof value === 'function' ? value.call(parent, parent && parent.__data__, j) : value);
        const up = new Array(data.length).fill(null), en = new Array(data.length).fill(null), ex = new Array(g.length).fill(null);
        const place = (d, i) => { en[i] = {__data__: d, _parent: parent, _next: null}; };
        if (key) {
          const found = new Map();
          g.forEach((e, i) => {
            if (!e) return;
            const k = String(key.call(e, e.__data__, i));
            if (found.has(k)) ex[i] = e; else found.set(k, [e, i]);
          });
          const used = new Set(), seen = new Set();
          data.forEach((d, i) => {
            const k = String(key.call(parent, d, i));
            if (found.has(k) && !used.has(k)) { const e = found.get(k)[0]; e.__data__ = d; up[i] = e; used.add(k); }
            else if (!seen.has(k) && !used.has(k)) place(d, i);
            else if (!v3) place(d, i);      // (version 3 drops repeated keys)
            seen.add(k);
          });
          found.forEach(([e, i], k) => { if (!used.has(k)) ex[i] = e; });
        } else {
          data.forEach((d, i) => { if (i < g.length && g[i]) { g[i].__data__ = d; up[i] = g[i]; } else place(d, i); });
          for (let i = data.length; i < g.length; i++) ex[i] = g[i];
        }
        update.push(up); enter.push(en); exit.push(ex);
      });
      const sel = new Selection(update, this._parents);
      sel._enter = new Enter(enter, this._parents, sel);
      sel._exit = new Selection(exit, this._parents);
      return sel;
    }
    enter() { return this._enter || new Enter(this._groups.map(g => g.map(() => null)), this._parents, this); }
    exit() { return this._exit || new Selection(this._groups.map(g => g.map(() => null)), this._parents); }
    on(type, f) {
      if (f === undefined) { const e = this.node(); return e && e._d3 && e._d3[type]; }
      type.split(/\s+/).forEach(type => {
        this._each((e, i, j, g) => {
          e._d3 = e._d3 || {};
          if (e._d3[type]) { e.removeEventListener(type.split('.')[0], e._d3[type]); delete e._d3[type]; }
          if (f === null) return;
          const listener = ev => {
            const old = d3.event;
            d3.event = ev;
            try { f.call(e, e.__data__, i, v3 ? j : g); } finally { d3.event = old; }
          };
          e._d3[type] = listener;
          e.addEventListener(type.split('.')[0], listener);
        });
      });
      return this;
    }
    dispatch(type) { return this._each(e => e.dispatchEvent(makeEvent(type))); }
    transition() { return new Transition(this._groups, this._parents); }
    interrupt() { return this; }
  }

  class Enter extends Selection {
    constructor(groups, parents, update) { super(groups, parents); this._update = update; }
    _add(make) {
      const groups = this._groups.map((g, j) => g.map((slot, i) => {
        if (!slot) return null;
        const e = make(slot, i, j);
        e.__data__ = slot.__data__;
        if (v3 && this._update) this._update._groups[j][i] = e;
        return e;
      }));
      return new Selection(groups, this._parents);
    }
    select(s) { return this._add((slot, i, j) => s.call(slot._parent, slot.__data__, i, j)); }
    append(name) {
      return this._add((slot, i, j) => slot._parent.appendChild(
        typeof name === 'function' ? name.call(slot._parent, slot.__data__, i, j) : this._create(name, slot._parent)));
    }
    insert(name, before) {
      return this._add((slot, i, j) => {
        const p = slot._parent, ref = before == null ? null : p.querySelector(before);
        return (ref ? ref.parentNode : p).insertBefore(
          typeof name === 'function' ? name.call(p, slot.__data__, i, j) : this._create(name, p), ref);
      });
    }
    size() { let n = 0; this._groups.forEach(g => g.forEach(s => { if (s) n++; })); return n; }
    empty() { return !this.size(); }
    each(f) { this._groups.forEach((g, j) => g.forEach((s, i) => { if (s) f.call(s, s.__data__, i, j); })); return this; }
  }

  // Transitions change the elements when the event loop gets to them
  class Transition extends Selection {
    constructor(groups, parents) { super(groups, parents); this._start = []; this._ends = []; this._remove = false; loop.add(() => this._run()); }
    _run() {
      this._start.forEach(f => f());
      // one transition at a time for each element: a later one replaces the end of this one (simplified)
      this._each((e, i, j, g) => this._ends.forEach(f => f.call(e, e.__data__, i, v3 ? j : g)));
      if (this._remove) this._each(e => { if (e.parentNode) e.parentNode.removeChild(e); });
    }
    duration() { return this; }
    delay() { return this; }
    ease() { return this; }
    transition() { return new Transition(this._groups, this._parents); }
    selection() { return new Selection(this._groups, this._parents); }
    attr(n, v) { this._start.push(() => Selection.prototype.attr.call(this, n, v)); return this; }
    style(n, v) { this._start.push(() => Selection.prototype.style.call(this, n, v)); return this; }
    text(v) { this._start.push(() => Selection.prototype.text.call(this, v)); return this; }
    attrTween(n, f) { this._start.push(() => this._each((e, i) => e.setAttribute(n, f.call(e, e.__data__, i, e.getAttribute(n))(1)))); return this; }
    styleTween(n, f) { this._start.push(() => this._each((e, i) => e.style.setProperty(n, f.call(e, e.__data__, i, '')(1)))); return this; }
    tween(n, f) { this._start.push(() => this._each((e, i) => f.call(e, e.__data__, i)(1))); return this; }
    remove() { this._remove = true; return this; }
    each(type, f) { if (typeof type === 'function') return super.each(type); if (type === 'end') this._ends.push(f); else if (type === 'start') this._start.push(() => super.each(f)); return this; }
    on(type, f) { if (/^end/.test(type)) this._ends.push(f); else if (/^start/.test(type)) this._start.push(() => super.each(f)); return this; }
  }

  d3.select = s => new Selection([[typeof s === 'string' ? document.querySelector(s) : s]]);
  d3.selectAll = s => new Selection([typeof s === 'string' ? document.querySelectorAll(s) : Array.from(s)]);

  // Arrays

  const num = x => x != null && !(typeof x === 'number' && isNaN(x));
  const vals = (a, f) => Array.from(a).map((x, i) => f ? f(x, i, a) : x).filter(num);
  const best = cmp => (a, f) => { let b; vals(a, f).forEach(x => { if (b === undefined ? x >= x : cmp(x, b)) b = x; }); return b; };
  d3.max = best((x, b) => x > b);
  d3.min = best((x, b) => x < b);
  d3.extent = (a, f) => [d3.min(a, f), d3.max(a, f)];
  d3.sum = (a, f) => vals(a, f).reduce((s, x) => s + +x, 0);
  d3.mean = (a, f) => { const v = vals(a, f); return v.length ? d3.sum(v) / v.length : undefined; };
  d3.range = (a, b, s) => { if (b === undefined) { b = a; a = 0; } s = s || 1; const out = []; for (let x = a; s > 0 ? x < b : x > b; x += s) out.push(x); return out; };
  d3.merge = a => [].concat(...a);
  d3.keys = o => Object.keys(o);
  d3.values = o => Object.keys(o).map(k => o[k]);
  d3.entries = o => Object.keys(o).map(key => ({key, value: o[key]}));
  d3.ascending = (a, b) => a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN;
  d3.descending = (a, b) => d3.ascending(b, a);
  d3.permute = (a, ix) => ix.map(i => a[i]);
  d3.zip = (...as) => d3.range(d3.min(as, a => a.length) || 0).map(i => as.map(a => a[i]));
  d3.map = (o, f) => {
    const m = new Map();
    const api = {
      get: k => m.get(String(k)), set: (k, v) => { m.set(String(k), v); return v3 ? v : api; }, has: k => m.has(String(k)),
      remove: k => m.delete(String(k)), keys: () => Array.from(m.keys()), values: () => Array.from(m.values()),
      entries: () => Array.from(m, ([key, value]) => ({key, value})), size: () => m.size, empty: () => !m.size,
      each: g => m.forEach((v, k) => v3 ? g.call(api, k, v) : g(v, k, api)),
    };
    api.forEach = g => m.forEach((v, k) => g.call(api, k, v));
    if (Array.isArray(o)) o.forEach((x, i) => api.set(f ? f(x, i) : i, x));
    else if (o) Object.keys(o).forEach(k => api.set(k, o[k]));
    return api;
  };
  d3.set = a => { const s = new Set((a || []).map(String)); return {has: x => s.has(String(x)), add: x => { s.add(String(x)); return x; }, remove: x => s.delete(String(x)), values: () => Array.from(s), size: () => s.size, empty: () => !s.size, forEach: f => s.forEach(x => f(x))}; };
  d3.functor = x => typeof x === 'function' ? x : () => x;
  d3.round = (x, n) => n ? Math.round(x * (n = Math.pow(10, n))) / n : Math.round(x);
  d3.format = s => x => { const m = /\.(\d+)f/.exec(s); return m ? (+x).toFixed(+m[1]) : String(x); };

  // Scales and colours: colours are written as they were computed

  function linear() {
    let dom = [0, 1], ran = [0, 1], clamp = false;
    const f = x => {
      let t = dom[1] === dom[0] ? 0 : (x - dom[0]) / (dom[1] - dom[0]);
      if (clamp) t = Math.max(0, Math.min(1, t));
      return typeof ran[0] === 'number' ? ran[0] + t * (ran[1] - ran[0]) : ran[0] + '~' + ran[1] + '(' + t + ')';
    };
    f.domain = x => { if (!x) return dom; dom = x.map(Number); return f; };
    f.range = x => { if (!x) return ran; ran = x; return f; };
    f.clamp = x => { clamp = x; return f; };
    f.nice = () => f;
    f.copy = () => linear().domain(dom).range(ran).clamp(clamp);
    return f;
  }
  function ordinal() {
    let dom = [], ran = [];
    const f = x => { let i = dom.map(String).indexOf(String(x)); if (i < 0) i = dom.push(x) - 1; return ran.length ? ran[i % ran.length] : undefined; };
    f.domain = x => { if (!x) return dom; dom = []; x.forEach(y => { if (!dom.map(String).includes(String(y))) dom.push(y); }); return f; };
    f.range = x => { if (!x) return ran; ran = x; return f; };
    return f;
  }
  if (v3) d3.scale = {linear, ordinal, category10: ordinal, category20: ordinal};
  else { d3.scaleLinear = linear; d3.scaleOrdinal = ordinal; }
  ['RdBu', 'Blues', 'Reds', 'Greens', 'Greys', 'Oranges', 'Purples', 'RdYlBu', 'Viridis'].forEach(n => { d3['interpolate' + n] = t => n + '(' + +t + ')'; });
  d3.interpolateNumber = (a, b) => t => a + t * (b - a);

  // Files

  d3.json = (url, cb) => {
    const name = String(url).replace(/^json\//, '');
    loop.requests.push(String(url));
    loop.add(() => {
      if (String(url).startsWith('json/') && Object.prototype.hasOwnProperty.call(files, name)) cb(null, JSON.parse(files[name]));
      else cb(new Error('404 ' + url), undefined);
    });
  };

  // Zoom and drag

  function behaviour(init) {
    const listeners = {};
    const state = Object.assign({}, init);
    const b = sel => { sel._each(e => { e._behaviours = (e._behaviours || []).concat([b]); }); };
    b._listeners = listeners;
    b._fire = (type, event, e) => { const f = listeners[type]; if (!f) return; const old = d3.event; d3.event = Object.assign(makeEvent(type), {sourceEvent: makeEvent('source')}, event); try { f.call(e, e && e.__data__, 0, 0); } finally { d3.event = old; } };
    b.on = (type, f) => { if (f === undefined) return listeners[type]; listeners[type] = f; return b; };
    ['translate', 'scale', 'scaleExtent', 'translateExtent', 'extent', 'center', 'size', 'x', 'y', 'origin', 'filter', 'duration', 'subject', 'container'].forEach(k => {
      b[k] = x => { if (x === undefined) return state[k]; state[k] = x; return b; };
    });
    b._state = state;
    b.event = sel => { const t = state.translate, s = state.scale; const go = () => b._fire('zoom', {translate: t, scale: s}, sel.node()); if (sel instanceof Transition) sel._start.push(go); else go(); };
    b.transform = (sel, t) => b._fire('zoom', {transform: t}, sel.node());
    return b;
  }
  if (v3) d3.behavior = {zoom: () => behaviour({translate: [0, 0], scale: 1, scaleExtent: [0, Infinity]}), drag: () => behaviour({})};
  else {
    d3.zoom = () => behaviour({scaleExtent: [0, Infinity]});
    d3.drag = () => behaviour({});
    d3.zoomIdentity = {x: 0, y: 0, k: 1};
  }

  // Trees: children are placed in order, side by side

  function place(root, kids, opts) {
    let next = 0;
    const all = [];
    const sep = opts.separation || (() => 1);
    const walk = n => {
      all.push(n);
      const c = kids(n);
      if (c && c.length) { c.forEach(walk); n.x = (c[0].x + c[c.length - 1].x) / 2; }
      else { n.x = next; next += 1; }
      n.y = n.depth;
    };
    walk(root);
    const depth = Math.max(1, ...all.map(n => n.depth));
    if (opts.nodeSize) { const x0 = root.x; all.forEach(n => { n.x = (n.x - x0) * opts.nodeSize[0]; n.y *= opts.nodeSize[1]; }); }
    else all.forEach(n => { n.x = (n.x + .5) * opts.size[0] / Math.max(1, next); n.y = n.y * opts.size[1] / depth; });
    return all;
  }
  function treeOptions(t) {
    const o = {size: [1, 1], nodeSize: null, separation: null};
    t.size = x => { if (!x) return o.size; o.size = x; o.nodeSize = null; return t; };
    t.nodeSize = x => { if (!x) return o.nodeSize; o.nodeSize = x; return t; };
    t.separation = x => { if (!x) return o.separation; o.separation = x; return t; };
    return o;
  }
  if (v3) {
    const tree = () => {
      let kids = d => d.children, order = null;
      const t = root => t.nodes(root);
      const o = treeOptions(t);
      t.children = f => { kids = f; return t; };
      t.sort = f => { order = f; return t; };
      t.value = () => t;
      t.nodes = root => {
        const nodes = [], stack = [root];
        root.depth = 0;
        let n;
        while ((n = stack.pop()) != null) {
          nodes.push(n);
          const c = kids.call(t, n, n.depth);
          if (c && c.length) {
            for (let i = c.length - 1; i >= 0; i--) { stack.push(c[i]); c[i].parent = n; c[i].depth = n.depth + 1; }
            if (order) c.sort(order);
            n.children = c;
          } else delete n.children;
        }
        place(root, d => d.children, o);
        return nodes;
      };
      t.links = nodes => d3.merge(nodes.map(p => (p.children || []).map(c => ({source: p, target: c}))));
      return t;
    };
    d3.layout = {tree, cluster: tree, force};
    d3.layout.hierarchy = tree;
    d3.svg = {
      diagonal() {
        let src = d => d.source, tgt = d => d.target, proj = d => [d.x, d.y];
        const f = function (d, i) {
          const a = src.call(this, d, i), b = tgt.call(this, d, i), m = (a.y + b.y) / 2;
          return 'M' + [a, {x: a.x, y: m}, {x: b.x, y: m}, b].map(proj).map((p, k) => (k === 1 ? 'C' : k ? ' ' : '') + p).join('');
        };
        f.source = g => { src = d3.functor(g); return f; };
        f.target = g => { tgt = d3.functor(g); return f; };
        f.projection = g => { proj = g; return f; };
        return f;
      },
      line() {
        let X = d => d[0], Y = d => d[1];
        const f = a => 'M' + a.map((d, i) => [X(d, i), Y(d, i)].join()).join('L');
        f.x = g => { X = d3.functor(g); return f; };
        f.y = g => { Y = d3.functor(g); return f; };
        f.interpolate = f.tension = () => f;
        return f;
      },
    };
  } else {
    class HNode {
      constructor(data) { this.data = data; this.depth = this.height = 0; this.parent = null; }
      each(f) { let level = [this], next; do { next = []; level.forEach(n => { f(n); if (n.children) next.push(...n.children); }); level = next; } while (level.length); return this; }
      eachBefore(f) { const go = n => { f(n); (n.children || []).forEach(go); }; go(this); return this; }
      eachAfter(f) { const go = n => { (n.children || []).forEach(go); f(n); }; go(this); return this; }
      descendants() { const out = []; this.each(n => out.push(n)); return out; }
      leaves() { return this.descendants().filter(n => !n.children); }
      ancestors() { const out = []; for (let n = this; n; n = n.parent) out.push(n); return out; }
      links() { const out = []; this.each(n => { if (n !== this) out.push({source: n.parent, target: n}); }); return out; }
      path(t) { const a = this.ancestors(), b = t.ancestors(); const c = a.find(x => b.includes(x)); return a.slice(0, a.indexOf(c) + 1).concat(b.slice(0, b.indexOf(c)).reverse()); }
      sort(f) { return this.eachBefore(n => { if (n.children) n.children.sort(f); }); }
      sum(f) { return this.eachAfter(n => { n.value = (+f(n.data) || 0) + (n.children || []).reduce((s, c) => s + c.value, 0); }); }
      count() { return this.eachAfter(n => { n.value = n.children ? n.children.reduce((s, c) => s + c.value, 0) : 1; }); }
    }
    d3.hierarchy = (data, kids) => {
      kids = kids || (d => d.children);
      const build = (d, parent) => {
        const n = new HNode(d);
        n.parent = parent;
        n.depth = parent ? parent.depth + 1 : 0;
        const c = kids(d);
        if (c && c.length) { n.children = Array.from(c).map(x => build(x, n)); n.height = 1 + Math.max(...n.children.map(x => x.height)); }
        return n;
      };
      return build(data, null);
    };
    d3.tree = d3.cluster = () => { const t = root => { place(root, d => d.children, o); return root; }; const o = treeOptions(t); return t; };
    const link = vertical => () => {
      let src = d => d.source, tgt = d => d.target, X = d => d.x, Y = d => d.y;
      const f = function (d) {
        const a = src.call(this, d), b = tgt.call(this, d), p = [X(a), Y(a)], q = [X(b), Y(b)];
        const m = vertical ? [[p[0], (p[1] + q[1]) / 2], [q[0], (p[1] + q[1]) / 2]] : [[(p[0] + q[0]) / 2, p[1]], [(p[0] + q[0]) / 2, q[1]]];
        return 'M' + p + 'C' + m[0] + ',' + m[1] + ',' + q;
      };
      f.source = g => { src = g; return f; };
      f.target = g => { tgt = g; return f; };
      f.x = g => { X = d3.functor(g); return f; };
      f.y = g => { Y = d3.functor(g); return f; };
      return f;
    };
    d3.linkVertical = link(true);
    d3.linkHorizontal = link(false);
  }

  // Forces: positions are pseudo-random but all different

  function force() {
    const listeners = {};
    let nodes = [], links = [], ticks = 0;
    const f = {};
    ['size', 'linkStrength', 'friction', 'charge', 'linkDistance', 'gravity', 'theta', 'alpha', 'chargeDistance'].forEach(k => { f['_' + k] = undefined; f[k] = x => { if (x === undefined) return f['_' + k]; f['_' + k] = x; return f; }; });
    f.nodes = x => { if (!x) return nodes; nodes = x; return f; };
    f.links = x => { if (!x) return links; links = x; return f; };
    f.on = (t, g) => { listeners[t] = g; return f; };
    f.tick = () => {
      ticks++;
      nodes.forEach((n, i) => { if (!n.fixed) { n.x = 20 + (i * 97.31 + ticks * 13.7) % 1070; n.y = 15 + (i * 41.17 + ticks * 7.3) % 523; } });
      if (listeners.tick) listeners.tick({type: 'tick', alpha: .1 / ticks});
      return f;
    };
    f.start = () => {
      nodes.forEach((n, i) => { n.index = i; if (isNaN(n.x)) n.x = i; if (isNaN(n.y)) n.y = i; if (isNaN(n.px)) n.px = n.x; if (isNaN(n.py)) n.py = n.y; });
      links.forEach(l => {
        if (typeof l.source === 'number') l.source = nodes[l.source];
        if (typeof l.target === 'number') l.target = nodes[l.target];
        if (!l.source || !l.target) throw new Error('a link without ends');
        if (typeof f._linkDistance === 'function') { const x = f._linkDistance.call(f, l, 0); if (isNaN(x)) throw new Error('distance ' + x); }
      });
      loop.add(() => { for (let i = 0; i < 3; i++) f.tick(); if (listeners.end) listeners.end({type: 'end'}); });
      return f;
    };
    f.resume = () => f.start();
    f.stop = () => f;
    f.drag = () => behaviour({});
    return f;
  }

  return d3;
};
