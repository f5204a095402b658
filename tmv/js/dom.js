'use strict';
// A small document: enough of the DOM for the visualisation pages.

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'wbr']);

class Node_ {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() {
    if (!this.parentNode) return null;
    const s = this.parentNode.childNodes;
    return s[s.indexOf(this) + 1] || null;
  }
  get previousSibling() {
    if (!this.parentNode) return null;
    const s = this.parentNode.childNodes;
    return s[s.indexOf(this) - 1] || null;
  }
  get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
  get children() { return this.childNodes.filter(c => c instanceof Element_); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  appendChild(c) { return this.insertBefore(c, null); }
  append(...cs) { cs.forEach(c => this.appendChild(typeof c === 'string' ? this.ownerDocument.createTextNode(c) : c)); }
  insertBefore(c, ref) {
    if (c === ref) return c;
    if (c.parentNode) c.parentNode.removeChild(c);
    const at = ref == null ? this.childNodes.length : this.childNodes.indexOf(ref);
    if (at < 0) throw new Error('insertBefore: no such child');
    this.childNodes.splice(at, 0, c);
    c.parentNode = this;
    return c;
  }
  removeChild(c) {
    const at = this.childNodes.indexOf(c);
    if (at < 0) throw new Error('removeChild: no such child');
    this.childNodes.splice(at, 1);
    c.parentNode = null;
    return c;
  }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(t) {
    this.childNodes.slice().forEach(c => this.removeChild(c));
    t = t == null ? '' : String(t);
    if (t !== '') this.appendChild(this.ownerDocument.createTextNode(t));
  }
  descendants() {
    const out = [];
    const walk = n => n.childNodes.forEach(c => { if (c instanceof Element_) { out.push(c); walk(c); } });
    walk(this);
    return out;
  }
  querySelectorAll(s) { const m = compile(s); return this.descendants().filter(e => m(e, this)); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  getElementsByClassName(c) { return this.querySelectorAll(c.trim().split(/\s+/).map(x => '.' + x).join('')); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  addEventListener(type, f) { (this._events = this._events || []).push([type, f]); }
  removeEventListener(type, f) { this._events = (this._events || []).filter(e => e[0] !== type || e[1] !== f); }
  dispatchEvent(e) {
    e.target = e.target || this;
    for (let n = this; n && !e._stopped; n = n.parentNode) {
      e.currentTarget = n;
      if (typeof n['on' + e.type] === 'function') n['on' + e.type](e);
      (n._events || []).slice().forEach(x => { if (x[0] === e.type) x[1].call(n, e); });
    }
    return true;
  }
  click() { this.dispatchEvent(makeEvent('click')); }
}

function makeEvent(type, extra) {
  return Object.assign({type, preventDefault() { this.defaultPrevented = true; }, defaultPrevented: false,
    stopPropagation() { this._stopped = true; }, stopImmediatePropagation() { this._stopped = true; }}, extra || {});
}

class Text_ extends Node_ {
  constructor(doc, t) { super(doc); this.data = String(t); }
  get textContent() { return this.data; }
  set textContent(t) { this.data = String(t); }
  get nodeName() { return '#text'; }
  get nodeType() { return 3; }
}

class Element_ extends Node_ {
  constructor(doc, tag, ns) {
    super(doc);
    this.localName = tag;
    this.namespaceURI = ns || 'http://www.w3.org/1999/xhtml';
    this._attrs = new Map();
    const self = this;
    this.style = new Proxy({_map: new Map()}, {
      get(t, k) {
        if (k === 'setProperty') return (p, v) => { t._map.set(p, String(v)); };
        if (k === 'removeProperty') return p => { t._map.delete(p); };
        if (k === 'getPropertyValue') return p => t._map.get(p) || '';
        if (k === '_map') return t._map;
        return t._map.get(String(k).replace(/[A-Z]/g, x => '-' + x.toLowerCase())) || '';
      },
      set(t, k, v) { t._map.set(String(k).replace(/[A-Z]/g, x => '-' + x.toLowerCase()), String(v)); return true; },
    });
    this.classList = {
      list: () => (self.getAttribute('class') || '').trim().split(/\s+/).filter(x => x),
      contains(c) { return this.list().includes(c); },
      add(...cs) { const l = this.list(); cs.forEach(c => { if (!l.includes(c)) l.push(c); }); self.setAttribute('class', l.join(' ')); },
      remove(...cs) { self.setAttribute('class', this.list().filter(c => !cs.includes(c)).join(' ')); },
      toggle(c, on) { on = on === undefined ? !this.contains(c) : on; if (on) this.add(c); else this.remove(c); return on; },
    };
    this.value = '';
  }
  get nodeName() { return this.localName.toUpperCase(); }
  get tagName() { return this.nodeName; }
  get nodeType() { return 1; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  getAttribute(n) { return this._attrs.has(n) ? this._attrs.get(n) : null; }
  setAttribute(n, v) { this._attrs.set(n, String(v)); }
  hasAttribute(n) { return this._attrs.has(n); }
  removeAttribute(n) { this._attrs.delete(n); }
  getAttributeNS(ns, n) { return this.getAttribute(n); }
  setAttributeNS(ns, n, v) { this.setAttribute(n, v); }
  removeAttributeNS(ns, n) { this.removeAttribute(n); }
  get attributes() { return Array.from(this._attrs, ([name, value]) => ({name, value})); }
  matches(s) { return compile(s)(this, this.ownerDocument); }
  closest(s) { for (let n = this; n instanceof Element_; n = n.parentNode) if (n.matches(s)) return n; return null; }
  cloneNode(deep) {
    const c = new Element_(this.ownerDocument, this.localName, this.namespaceURI);
    this._attrs.forEach((v, k) => c._attrs.set(k, v));
    if (deep) this.childNodes.forEach(x => c.appendChild(x instanceof Text_ ? new Text_(this.ownerDocument, x.data) : x.cloneNode(true)));
    return c;
  }
  get innerHTML() { return this.textContent; }
  set innerHTML(t) {
    this.textContent = '';
    parse(String(t), this.ownerDocument, this);
  }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  getComputedTextLength() { return 7 * this.textContent.length; }
  getBBox() {
    let box = null;
    const add = (x, y, w, h) => {
      const b = [x, y, x + w, y + h];
      box = box ? [Math.min(box[0], b[0]), Math.min(box[1], b[1]), Math.max(box[2], b[2]), Math.max(box[3], b[3])] : b;
    };
    const walk = (e, dx, dy) => e.children.forEach(c => {
      const m = /translate\(\s*([-\d.e+]+)[\s,]+([-\d.e+]+)/.exec(c.getAttribute('transform') || '');
      const x = dx + (m ? +m[1] : 0), y = dy + (m ? +m[2] : 0);
      if (c.localName === 'rect') add(x + +(c.getAttribute('x') || 0), y + +(c.getAttribute('y') || 0),
                                      +(c.getAttribute('width') || 0), +(c.getAttribute('height') || 0));
      else if (c.localName === 'text' || c.localName === 'circle') add(x, y, 1, 1);
      walk(c, x, y);
    });
    walk(this, 0, 0);
    box = box || [0, 0, 0, 0];
    return {x: box[0], y: box[1], width: box[2] - box[0], height: box[3] - box[1]};
  }
  getBoundingClientRect() { const b = this.getBBox(); return Object.assign({left: b.x, top: b.y, right: b.x + b.width, bottom: b.y + b.height}, b); }
  get clientWidth() { return 1110; }
  get clientHeight() { return 555; }
}

class Document_ extends Node_ {
  constructor() { super(null); this.ownerDocument = this; }
  get nodeType() { return 9; }
  get documentElement() { return this.children[0] || null; }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  createElement(t) { return new Element_(this, t); }
  createElementNS(ns, t) { return new Element_(this, t, ns); }
  createTextNode(t) { return new Text_(this, t); }
  getElementById(i) { return this.descendants().find(e => e.getAttribute('id') === i) || null; }
}

// Selectors: lists of compounds joined by descendant or child combinators
function compile(selector) {
  const alternatives = selector.split(',').map(s => {
    const tokens = s.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/).filter(x => x);
    return tokens.map(t => t === '>' ? '>' : compound(t));
  });
  return (e, scope) => alternatives.some(a => match(a, a.length - 1, e));
}

function compound(t) {
  const tests = [];
  let rest = t;
  while (rest) {
    let m;
    if ((m = /^\*/.exec(rest))) tests.push(() => true);
    else if ((m = /^:not\(([^)]*)\)/.exec(rest))) { const c = compound(m[1]); tests.push(e => !c(e)); }
    else if ((m = /^:first-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.children[0] === e);
    else if ((m = /^:last-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.lastElementChild === e);
    else if ((m = /^:nth-child\((\d+)\)/.exec(rest))) { const n = +m[1]; tests.push(e => e.parentNode && e.parentNode.children[n - 1] === e); }
    else if ((m = /^\.([-\w]+)/.exec(rest))) { const c = m[1]; tests.push(e => e.classList.contains(c)); }
    else if ((m = /^#([-\w]+)/.exec(rest))) { const c = m[1]; tests.push(e => e.getAttribute('id') === c); }
    else if ((m = /^\[([-\w]+)(?:([~^$*]?=)["']?([^"'\]]*)["']?)?\]/.exec(rest))) {
      const [, k, op, v] = m;
      tests.push(e => {
        const x = k === 'type' && !e.hasAttribute(k) ? null : e.getAttribute(k);
        if (x == null) return false;
        return !op || (op === '=' ? x === v : op === '^=' ? x.startsWith(v) : op === '$=' ? x.endsWith(v) :
          op === '*=' ? x.includes(v) : x.split(/\s+/).includes(v));
      });
    } else if ((m = /^[a-zA-Z][-\w]*/.exec(rest))) { const c = m[0].toLowerCase(); tests.push(e => e.localName.toLowerCase() === c); }
    else throw new Error('unsupported selector: ' + t);
    rest = rest.slice(m[0].length);
  }
  return e => tests.every(f => f(e));
}

function match(parts, i, e) {
  if (!parts[i](e)) return false;
  if (i === 0) return true;
  if (parts[i - 1] === '>') {
    if (i === 1) return true;
    return e.parentNode instanceof Element_ && match(parts, i - 2, e.parentNode);
  }
  for (let n = e.parentNode; n instanceof Element_; n = n.parentNode) if (match(parts, i - 1, n)) return true;
  return false;
}

function unescapeHTML(t) {
  return t.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&nbsp;/g, ' ').replace(/&amp;/g, '&');
}

function parse(html, doc, parent) {
  const scripts = [];
  let node = parent, pos = 0;
  while (pos < html.length) {
    if (html.startsWith('<!--', pos)) { const e = html.indexOf('-->', pos); pos = e < 0 ? html.length : e + 3; continue; }
    if (html.startsWith('<!', pos)) { pos = html.indexOf('>', pos) + 1; continue; }
    const close = /^<\/([a-zA-Z][-\w]*)\s*>/.exec(html.slice(pos, pos + 60));
    if (close) {
      let n = node;
      while (n !== parent && n.localName !== close[1].toLowerCase()) n = n.parentNode;
      if (n !== parent) node = n.parentNode;
      pos += close[0].length;
      continue;
    }
    const open = /^<([a-zA-Z][-\w]*)((?:\s+[-:\w]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/.exec(html.slice(pos));
    if (open) {
      const tag = open[1].toLowerCase();
      const el = tag === 'svg' ? doc.createElementNS('http://www.w3.org/2000/svg', tag) : doc.createElement(tag);
      const re = /([-:\w]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
      let m;
      while ((m = re.exec(open[2]))) {
        const v = m[2] !== undefined ? m[2] : m[3] !== undefined ? m[3] : m[4] !== undefined ? m[4] : '';
        if (m[1] === 'style') v.split(';').forEach(x => { const [a, b] = x.split(':'); if (b) el.style.setProperty(a.trim(), b.trim()); });
        else el.setAttribute(m[1], unescapeHTML(v));
      }
      node.appendChild(el);
      pos += open[0].length;
      if (tag === 'script' || tag === 'style') {
        const end = html.indexOf('</' + tag, pos);
        el.appendChild(doc.createTextNode(html.slice(pos, end)));
        pos = html.indexOf('>', end) + 1;
        if (tag === 'script') scripts.push(el);
      } else if (!VOID.has(tag) && !open[3]) node = el;
      continue;
    }
    let e = html.indexOf('<', pos + 1);
    if (e < 0) e = html.length;
    const t = html.slice(pos, e);
    if (t) node.appendChild(doc.createTextNode(unescapeHTML(t)));
    pos = e;
  }
  return scripts;
}

module.exports = {Document: Document_, Element: Element_, Text: Text_, parse, makeEvent};
