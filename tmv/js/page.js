'use strict';
// Loads a page of /repo/visualization in a small document, plays a list of actions and writes what is displayed after
// each.  stdin: {dir, page, files: {name: text}, actions: [...]}; stdout: {steps: [{errors, display}]}
const fs = require('fs'), path = require('path'), vm = require('vm');
const {Document, Element, parse, makeEvent} = require('./dom.js');
const d3of = require('./d3.js');

const job = JSON.parse(fs.readFileSync(0, 'utf8'));
const file = path.join(job.dir, job.page);
const document = new Document();
const scripts = parse(fs.readFileSync(file, 'utf8'), document, document);

const queue = [];
const loop = {add: f => queue.push(f), requests: []};
let errors = [];
const attempt = f => { try { f(); } catch (e) { errors.push(String(e && e.stack || e)); } };
const flush = () => { let n = 0; while (queue.length) { if (++n > 100000) { errors.push('endless'); break; } attempt(queue.shift()); } };

const say = [];
const printer = (...a) => { say.push(a.map(String).join(' ')); };
const ros = {listeners: {}, subscriptions: {}, urls: []};
const ROSLIB = {
  Ros: class { on(t, f) { (ros.listeners[t] = ros.listeners[t] || []).push(f); } connect(u) { ros.urls.push(u); } close() {} },
  Topic: class { constructor(o) { Object.assign(this, o); } subscribe(f) { (ros.subscriptions[this.name] = ros.subscriptions[this.name] || []).push(f); } unsubscribe() {} publish() {} advertise() {} },
  Message: class { constructor(o) { Object.assign(this, o); } },
};
const $ = s => {
  const list = typeof s === 'string' ? document.querySelectorAll(s) : s instanceof Element ? [s] : Array.isArray(s) ? s : s === document ? [document] : [];
  const q = {
    length: list.length, get: i => list[i], each: f => { list.forEach((e, i) => f.call(e, i, e)); return q; },
    on: (t, f) => { t.split(/\s+/).forEach(t => list.forEach(e => e.addEventListener(t, f))); return q; },
    change: f => f ? q.on('change', f) : q.trigger('change'), click: f => f ? q.on('click', f) : q.trigger('click'),
    trigger: t => { list.forEach(e => e.dispatchEvent(makeEvent(t))); return q; },
    ready: f => { queue.push(f); return q; },
    html: x => { if (x === undefined) return list[0] && list[0].innerHTML; list.forEach(e => { e.innerHTML = x; }); return q; },
    text: x => { if (x === undefined) return list.map(e => e.textContent).join(''); list.forEach(e => { e.textContent = x; }); return q; },
    val: x => { if (x === undefined) return list[0] && list[0].value; list.forEach(e => { e.value = x; }); return q; },
    attr: (k, v) => { if (v === undefined) return list[0] && list[0].getAttribute(k); list.forEach(e => e.setAttribute(k, v)); return q; },
    addClass: c => { list.forEach(e => e.classList.add(c)); return q; },
    removeClass: c => { list.forEach(e => e.classList.remove(c)); return q; },
    toggleClass: c => { list.forEach(e => e.classList.toggle(c)); return q; },
    hasClass: c => list.some(e => e.classList.contains(c)),
    show: () => { list.forEach(e => { e.style.display = ''; }); return q; }, hide: () => { list.forEach(e => { e.style.display = 'none'; }); return q; },
    empty: () => { list.forEach(e => { e.textContent = ''; }); return q; }, remove: () => { list.forEach(e => e.remove()); return q; },
    find: t => $([].concat(...list.map(e => e.querySelectorAll(t)))),
  };
  list.forEach((e, i) => { q[i] = e; });
  return q;
};

const timers = f => { queue.push(f); return queue.length; };
const sandbox = {document, ROSLIB, $, jQuery: $, console: {log: printer, info: printer, warn: printer, error: printer, debug: printer},
                 setTimeout: timers, setInterval: () => 0, clearTimeout() {}, clearInterval() {}, requestAnimationFrame: timers,
                 location: {protocol: 'http:', hostname: 'localhost', href: 'http://localhost/', search: ''}, navigator: {userAgent: 'stand-in'},
                 alert: printer};
sandbox.window = sandbox; sandbox.self = sandbox; sandbox.globalThis_ = sandbox;
sandbox.addEventListener = () => {};
vm.createContext(sandbox);

// functions of d3 that the stand-in lacks are told apart from mistakes of the page
const known = d3 => new Proxy(d3, {get: (t, k) => {
  if (!(k in t) && typeof k === 'string' && /^[a-z]/.test(k)) errors.push('d3.' + k + ' is not in the stand-in');
  return t[k];
}});

let version = null;
scripts.forEach(s => {
  const src = s.getAttribute('src');
  if (src == null) { attempt(() => vm.runInContext(s.textContent, sandbox, {filename: job.page})); return; }
  if (/^https?:/.test(src)) {
    const m = /\/d3\.v(\d)/.exec(src);
    if (m) { version = +m[1]; sandbox.d3 = known(d3of(version, document, loop, job.files)); }
    return;
  }
  const local = path.join(path.dirname(file), src);
  attempt(() => vm.runInContext(fs.readFileSync(local, 'utf8'), sandbox, {filename: src}));
});

const uid = e => { const d = e.__data__; if (d == null || typeof d !== 'object') return null; return d._uid != null ? d._uid : d.data && d.data._uid != null ? d.data._uid : null; };
function show(e) {
  const o = {tag: e.localName, attrs: {}, style: {}, kids: []};
  e._attrs.forEach((v, k) => { o.attrs[k] = v; });
  e.style._map.forEach((v, k) => { o.style[k] = v; });
  const u = uid(e);
  if (u != null) o.uid = u;
  if (e._d3) o.on = Object.keys(e._d3).sort();
  const own = e.childNodes.filter(c => !(c instanceof Element)).map(c => c.textContent).join('');
  if (own.trim()) o.text = own;
  o.kids = e.children.filter(c => c.localName !== 'script' && c.localName !== 'head').map(show);
  return o;
}
const find = u => document.descendants().filter(e => uid(e) === u);

const steps = [];
const snap = skip => {
  flush();
  const step = {errors};
  if (!skip) step.display = document.body ? show(document.body) : null;
  steps.push(step);
  errors = [];
};
snap();
job.actions.forEach(a => {
  if (a.do === 'click' || a.do === 'hover') {
    const type = a.do === 'click' ? 'click' : 'mouseover';
    const e = find(a.uid).find(e => e._d3 && (e._d3[type] || e._d3.mouseenter && type === 'mouseover'));
    if (!e) errors.push('NO-NODE ' + a.do + ' ' + a.uid);
    else attempt(() => e.dispatchEvent(makeEvent(e._d3[type] ? type : 'mouseenter')));
  } else if (a.do === 'file') {
    const e = document.getElementById('my_file');
    e.value = 'C:\\fakepath\\' + a.name;
    if (a.bare) e.value = a.name;
    attempt(() => e.dispatchEvent(makeEvent('change')));
  } else if (a.do === 'zoom') {
    const svg = document.querySelector('svg'), b = (svg._behaviours || []).slice(-1)[0];
    if (!b) errors.push('NO-ZOOM');
    else attempt(() => b._fire('zoom', {translate: [a.x, a.y], scale: a.k, transform: {x: a.x, y: a.y, k: a.k}}, svg));
  } else if (a.do === 'drag') {
    const t = document.querySelectorAll('text').find(t => t.textContent.startsWith(a.label));
    let e = t;
    while (e && !(e._behaviours && e._behaviours.length)) e = e.parentNode;
    if (!e || e === document) errors.push('NO-DRAG ' + a.label);
    else {
      const b = e._behaviours[e._behaviours.length - 1];
      attempt(() => b._fire('dragstart', {}, e));
      a.by.forEach(d => attempt(() => b._fire('drag', {dx: d[0], dy: d[1], x: 0, y: 0}, e)));
      attempt(() => b._fire('dragend', {}, e));
    }
  } else if (a.do === 'press') {
    const e = document.getElementById(a.id);
    if (!e) errors.push('NO-BUTTON ' + a.id); else attempt(() => e.dispatchEvent(makeEvent('click')));
  } else if (a.do === 'ros') {
    (ros.subscriptions[a.topic] || []).forEach(f => attempt(() => f({data: a.data})));
  } else if (a.do === 'rosevent') {
    (ros.listeners[a.type] || []).forEach(f => attempt(() => f({})));
  }
  snap(a.skip);
});
process.stdout.write(JSON.stringify({version, requests: loop.requests, urls: ros.urls, topics: Object.keys(ros.subscriptions), steps}));
