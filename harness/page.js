// C31: the web page. The script of the page runs against a document built from
// the page itself; the explorer decides when a request is answered, when the
// body of an answer arrives and when the user acts.
'use strict'
const fs = require('fs'), vm = require('vm'), crypto = require('crypto'), cp = require('child_process'), path = require('path'), http = require('http')
const os = require('os')

const arg = {}
for (const a of process.argv.slice(2)) {
  const m = /^--([^=]+)(?:=(.*))?$/s.exec(a)
  if (m) arg[m[1]] = m[2] === undefined ? '1' : m[2]
}
const quick = arg.tier !== 'thorough'
const W = +(arg.workers || os.cpus().length)
const pageFile = path.join(arg.repo || '/repo', 'pwned-lookup-web', 'index.html')

class Fail extends Error { constructor(sig, msg) { super(msg); this.sig = sig } }
const fail = (sig, msg) => { throw new Fail(sig, msg) }
const md5 = s => crypto.createHash('md5').update(String(s), 'utf8').digest('hex')
const group = n => { let s = String(n), r = ''; while (s.length > 3) { r = ',' + s.slice(-3) + r; s = s.slice(0, -3) } return s + r }

// ---------------------------------------------------------------- document
const entities = { hellip: '\u2026', amp: '&', lt: '<', gt: '>', quot: '"', nbsp: '\u00a0', apos: "'" }
const decode = s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (all, e) => e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : +e.slice(1)) : entities[e] || all)
class ClassList {
  constructor(s) { this.set = new Set(s.split(/\s+/).filter(x => x)) }
  add(...c) { for (const x of c) this.set.add(x) }
  remove(...c) { for (const x of c) this.set.delete(x) }
  contains(c) { return this.set.has(c) }
  toggle(c, force) { const on = force === undefined ? !this.set.has(c) : !!force; if (on) this.set.add(c); else this.set.delete(c); return on }
  replace(a, b) { if (!this.set.has(a)) return false; this.set.delete(a); this.set.add(b); return true }
  get value() { return [...this.set].join(' ') }
  toString() { return this.value }
}
class Target {
  constructor() { this.listeners = {} }
  addEventListener(type, f) { (this.listeners[type] = this.listeners[type] || []).push(f) }
  removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter(x => x !== f) }
  fire(type, target) {
    const e = { type, target: target || this, currentTarget: this, preventDefault() {}, stopPropagation() {} }
    for (const f of [...(this.listeners[type] || [])]) typeof f === 'function' ? f.call(this, e) : f.handleEvent(e)
    if (typeof this['on' + type] === 'function') this['on' + type](e)
  }
}
class Element extends Target {
  constructor(tag, attrs, parent) {
    super()
    this.tagName = tag.toUpperCase()
    this.attrs = attrs
    this.parentElement = this.parentNode = parent
    this.children = []
    this.classList = new ClassList(attrs.class || '')
    this.text = ''
    this.style = {}
    this.dataset = {}
    this.hidden = 'hidden' in attrs
    this.disabled = false
    this.value = attrs.value || ''
    this.checked = 'checked' in attrs
    this.id = attrs.id || ''
  }
  get title() { return this.attrs.title || '' }
  set title(s) { this.attrs.title = String(s) }
  get className() { return this.classList.value }
  set className(s) { this.classList = new ClassList(String(s)) }
  getAttribute(n) { return n === 'class' ? this.className : n in this.attrs ? this.attrs[n] : null }
  setAttribute(n, v) { if (n === 'class') this.className = v; else this.attrs[n] = String(v) }
  removeAttribute(n) { if (n === 'class') this.className = ''; else delete this.attrs[n] }
  get innerText() { return this.text }
  set innerText(s) { this.text = s === null ? '' : String(s) }
  get textContent() { return this.text }
  set textContent(s) { this.text = s === null ? '' : String(s) }
  get innerHTML() { return this.text }
  set innerHTML(s) { this.text = decode(String(s).replace(/<[^>]*>/g, '')) }
  replaceChildren(...c) { this.text = c.map(x => typeof x === 'string' ? x : x.text).join('') }
  append(...c) { this.text += c.map(x => typeof x === 'string' ? x : x.text).join('') }
  appendChild(c) { this.text += c.text; return c }
  click() { this.fire('click') }
  focus() {}
  blur() {}
  get visible() {
    for (let e = this; e; e = e.parentElement) if (e.classList.contains('invisible') || e.hidden || e.style.display === 'none' || e.style.visibility === 'hidden') return false
    return true
  }
}
const voids = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr'])

// the page: a list of instructions to build the document, and the scripts
function parsePage(html) {
  const scripts = [], build = []
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(script|style)\b([^>]*)>([\s\S]*?)<\/\1\s*>|<(\/?)([a-z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|[^<]+|</gi
  const attrsOf = s => {
    const a = {}
    for (const m of s.matchAll(/([^\s=\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) a[m[1].toLowerCase()] = decode(m[2] !== undefined ? m[2] : m[3] !== undefined ? m[3] : m[4] || '')
    return a
  }
  for (const m of html.matchAll(re)) {
    if (m[1]) {
      const a = attrsOf(m[2] || '')
      if (m[1].toLowerCase() === 'script') scripts.push({ src: a.src, type: a.type, code: m[3] })
    }
    else if (m[5]) {
      const tag = m[5].toLowerCase()
      if (m[4]) build.push({ close: tag })
      else {
        build.push({ open: tag, attrs: attrsOf(m[6]) })
        if (voids.has(tag) || m[7]) build.push({ close: tag })
      }
    }
    else if (m[0][0] !== '<') build.push({ text: decode(m[0]) })
  }
  return { scripts, build }
}
const page = parsePage(fs.readFileSync(pageFile, 'utf8'))
const code = page.scripts.filter(s => !s.src).map((s, i) => new vm.Script(s.code, { filename: 'index.html script ' + i }))
if (!code.length) { console.error('ERROR: no script in ' + pageFile); process.exit(2) }

const drain = () => new Promise(r => setImmediate(r))

class Browser {
  constructor() {
    this.requests = []
    this.sent = []
    this.all = []
    this.root = new Element('#root', {}, null)
    let at = this.root
    for (const b of page.build) {
      if (b.open) {
        const e = new Element(b.open, Object.assign({}, b.attrs), at)
        at.children.push(e)
        this.all.push(e)
        at = e
      }
      else if (b.close) {
        for (let e = at; e; e = e.parentElement) if (e.tagName === b.close.toUpperCase()) { at = e.parentElement || this.root; break }
      }
      else at.text += b.text
    }
    for (const e of this.all) e.text = e.text.trim()
    const doc = new Target(), win = new Target(), self = this
    this.doc = doc
    this.win = win
    const byId = id => this.all.find(e => e.id === id) || null
    this.byId = byId
    doc.getElementById = byId
    doc.querySelector = s => doc.querySelectorAll(s)[0] || null
    doc.querySelectorAll = s => this.all.filter(e => {
      const m = /^([\w-]*)((?:[#.][\w-]+)*)(\[[^\]]*\])?$/.exec(s.trim().split(/\s+/).pop())
      return m && (!m[1] || e.tagName === m[1].toUpperCase()) && (m[2].match(/[#.][\w-]+/g) || []).every(x => x[0] === '#' ? e.id === x.slice(1) : e.classList.contains(x.slice(1)))
    })
    doc.getElementsByClassName = c => this.all.filter(e => e.classList.contains(c))
    doc.createTextNode = t => ({ text: String(t) })
    doc.createElement = t => new Element(t, {}, null)
    doc.readyState = 'loading'
    doc.body = this.all.find(e => e.tagName === 'BODY')
    doc.documentElement = this.all.find(e => e.tagName === 'HTML')
    const fetch = (url, options) => {
      const q = { url: String(url && url.href ? url.href : url && url.url ? url.url : url), options: options || {} }
      q.promise = new Promise((res, rej) => { q.res = res; q.rej = rej })
      this.requests.push(q)
      this.sent.push(q.url + ' ' + String(q.options.method || 'GET') + ' ' + JSON.stringify(q.options.body || '') + JSON.stringify(q.options.headers || ''))
      if (q.options.signal) q.options.signal.addEventListener('abort', () => { q.aborted = true; const e = new Error('aborted'); e.name = 'AbortError'; q.rej(e); if (q.rejBody) q.rejBody(e) })
      return q.promise
    }
    const other = what => function (...a) { self.sent.push(what + ' ' + a.map(String).join(' ')) }
    const globals = { document: doc, window: win, self: win, fetch, md5, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} }, AbortController, URL, URLSearchParams, setTimeout, clearTimeout, queueMicrotask,
      performance: { now: () => 0 }, navigator: { sendBeacon: other('beacon'), language: 'en-US' }, location: { href: 'https://page/', protocol: 'https:', host: 'page' }, encodeURIComponent, TextEncoder }
    Object.assign(win, globals)
    win.window = win
    this.context = vm.createContext(Object.assign({}, globals))
    for (const s of code) s.runInContext(this.context)
    doc.readyState = 'interactive'
    doc.fire('DOMContentLoaded')
    doc.readyState = 'complete'
    win.fire('load')
    for (const id of ['password', 'hash', 'found', 'lookup-time-ms', 'result-container', 'error-container', 'on-every-keypress', 'submit', 'hash-count', 'last-update'])
      if (!byId(id)) fail('no-element', 'no element ' + id)
  }
  type(s) { const p = this.byId('password'); p.value = s; p.fire('input') }
  check(on) { const b = this.byId('on-every-keypress'); if (b.checked !== on) { b.checked = on; b.fire('input'); b.fire('change'); b.fire('click') } }
  click() { this.byId('submit').fire('click') }
  // a server: header of the answer, then its body
  respond(q, answer) {
    const bodyPromise = new Promise((res, rej) => { q.resBody = res; q.rejBody = rej })
    bodyPromise.catch(() => {})
    const r = {
      ok: answer.status >= 200 && answer.status < 300, status: answer.status, statusText: '', url: q.url, headers: { get: h => /content-type/i.test(h) ? answer.type : null },
      json: () => bodyPromise.then(t => JSON.parse(t)), text: () => bodyPromise, clone: () => r,
    }
    q.res(r)
  }
  body(q, answer) { if (answer.broken) q.rejBody(new TypeError(answer.broken)); else q.resBody(answer.text) }
  refuse(q, why) { q.rej(new TypeError(why)) }
  view() {
    const f = this.byId('found'), h = this.byId('hash'), e = this.byId('error-container'), t = this.byId('lookup-time-ms'), r = this.byId('result-container')
    return { result: r.visible, hash: h.text, title: h.title, found: f.text, isFound: f.classList.contains('found'), isNot: f.classList.contains('notfound'), time: t.text, error: e.visible && e.text !== '', errorText: e.text }
  }
}
const lookupBase = /^(https?:\/\/[^\/]+\/v1\/pwned\/api)\/lookup\?hash=([^&#]*)$/
const infoUrl = /^https?:\/\/[^\/]+\/v1\/pwned\/api\/info$/

// ---------------------------------------------------------------- oracle of lookups
const answerOf = (kind, hash, n) => {
  const count = [22, 0, 1234567, 1][n % 4]
  switch (kind) {
    case 'found': return { status: 200, type: 'application/json', text: JSON.stringify({ hash, found: count || 5, 'lookup-time-ms': 0.25 + n }), found: count || 5, time: 0.25 + n }
    case 'none': return { status: 200, type: 'application/json', text: JSON.stringify({ hash, found: 0, 'lookup-time-ms': 0.25 + n }), found: 0, time: 0.25 + n }
    case 'refused': return { refuse: 'no <connection> ' + n }
    case 'bad': return { status: 500, type: 'text/plain', text: 'Lookup failed\r\n', failed: true }
    case 'cut': return { status: 200, type: 'application/json', broken: 'body <lost> ' + n, failed: true }
  }
}
function checkResult(v, l, how) {
  const a = l.answer
  const show = () => '; shown: ' + JSON.stringify(v) + '; ' + how()
  if (a.found !== undefined) {
    if (!v.result) fail('result-hidden', 'the answer to the latest lookup has arrived, but no result is shown' + show())
    if (v.error) fail('error-shown', 'an error is shown together with the answer to the latest lookup' + show())
    const want = a.found > 0 ? group(a.found) + ' times' : 'not found'
    if (v.found !== want) fail('wrong-found', "the page shows '" + v.found + "' instead of '" + want + "' for the password entered last" + show())
    if (v.isFound !== (a.found > 0) || v.isNot === (a.found > 0)) fail('wrong-mark', 'the result is marked as ' + (v.isFound ? 'found' : '') + (v.isNot ? 'not found' : '') + show())
    if (v.time !== a.time + ' ms') fail('wrong-time', "the page shows the lookup time '" + v.time + "' instead of " + a.time + ' ms' + show())
  }
  else {
    if (!v.error) fail('no-error', 'the latest lookup has failed, but no error is shown' + show())
    if (v.result) fail('result-shown', 'the latest lookup has failed, but a result is shown' + show())
    const why = a.refuse || a.broken
    if (why && !v.errorText.includes(why)) fail('wrong-error', "the error shown does not contain the message '" + why + "'" + show())
  }
}

// ---------------------------------------------------------------- explorer
// A body is an async function of (ctx, case); ctx.choose(n) enumerates.
class Ctx {
  constructor(stack, stats) { this.stack = stack; this.pos = 0; this.stats = stats; this.notes = [] }
  choose(n) {
    if (n < 1) throw new Error('no choice')
    if (this.pos === this.stack.length) this.stack.push({ c: 0, n })
    const e = this.stack[this.pos++]
    if (e.n !== n && e.n) throw new Error('ERROR: the execution is not deterministic')
    e.n = n
    return e.c
  }
  step() { ++this.stats.transitions }
  state(s) { this.stats.states.add(crypto.createHash('md5').update(s).digest('base64').slice(0, 11)) }
  outcome(s) { this.stats.outcomes.add(crypto.createHash('md5').update(s).digest('base64').slice(0, 11)) }
  note(s) { this.notes.push(s) }
}

const explorations = {}

// every order of user actions, answers and bodies
async function orders(c, k) {
  const b = new Browser()
  const lookups = []
  const info = b.requests.find(q => infoUrl.test(q.url))
  if (!info) fail('no-info', 'the page does not ask for the information about the database')
  const log = []
  const how = () => 'history: ' + log.join(', ')
  const words = ['alpha', k.same ? 'alpha' : 'beta', 'gamma', 'delta']
  let infoState = k.info ? 0 : 9
  let before = null
  let started = 0
  for (;;) {
    const acts = []
    if (started < k.kinds.length) acts.push(['start'])
    lookups.forEach((l, i) => {
      if (l.q.aborted && l.state < 2) l.state = 2
      if (l.state === 0) acts.push(['answer', i])
      if (l.state === 1) acts.push(['body', i])
    })
    if (infoState < 2) acts.push(['info'])
    if (!acts.length) break
    const [what, i] = acts[c.choose(acts.length)]
    c.step()
    if (what === 'start') {
      const n = started++
      const word = words[n]
      log.push((k.click ? 'click' : 'type') + ' ' + n)
      const had = b.requests.length
      if (k.click) { b.byId('password').value = word; b.click() }
      else b.type(word)
      const fresh = b.requests.slice(had)
      if (fresh.length !== 1) fail('requests', fresh.length + ' requests for one lookup; ' + how())
      const m = lookupBase.exec(fresh[0].url)
      if (!m || m[2] !== md5(word)) fail('wrong-request', "the request for '" + word + "' is " + fresh[0].url)
      lookups.push({ q: fresh[0], state: 0, word, hash: md5(word), answer: answerOf(k.kinds[n], md5(word), n), n })
    }
    else if (what === 'info') {
      log.push('info ' + infoState)
      const answer = { status: 200, type: 'application/json', text: JSON.stringify({ count: 4321, 'last-update': 1500000000 }) }
      if (infoState === 0) b.respond(info, answer)
      else b.body(info, answer)
      ++infoState
    }
    else {
      const l = lookups[i]
      log.push(what + ' ' + i)
      if (what === 'answer' && l.answer.refuse) { b.refuse(l.q, l.answer.refuse); l.state = 2 }
      else if (what === 'answer') { b.respond(l.q, l.answer); l.state = 1 }
      else { b.body(l.q, l.answer); l.state = 2 }
    }
    await drain()
    const v = b.view()
    if (lookups.length) {
      const l = lookups[lookups.length - 1]
      if (v.title !== l.hash) fail('wrong-hash', "the hash shown is '" + v.title + "' instead of " + l.hash + '; ' + how())
      if (v.hash !== l.hash.slice(0, 8) + '\u2026' + l.hash.slice(-8)) fail('wrong-hash', "the hash shown is '" + v.hash + "' instead of " + l.hash + '; ' + how())
      if (l.state === 2) checkResult(v, l, how)
      else {
        if (v.result && (v.found !== '' || v.isFound || v.isNot || v.time !== '')) fail('stale-result', "the page shows '" + v.found + "' for a password the answer for which has not arrived; shown: " + JSON.stringify(v) + '; ' + how())
        if (what !== 'start' && (v.result !== before.result || v.error !== before.error || v.errorText !== before.errorText)) fail('stale-outcome', 'the outcome of an older lookup is shown while the latest one is under way; shown: ' + JSON.stringify(v) + '; ' + how())
      }
    }
    if (k.info && infoState === 2 && (b.byId('hash-count').text !== '4,321' || !/2017/.test(b.byId('last-update').text))) fail('info', 'the information about the database is not shown: ' + b.byId('hash-count').text + ', ' + b.byId('last-update').text + '; ' + how())
    for (const s of b.sent) for (const w of words) if (s.includes(w)) fail('password-sent', 'the password is sent: ' + s)
    before = v
    c.state(log.join(',') + JSON.stringify(k))
    c.outcome(JSON.stringify(v))
  }
  c.note(JSON.stringify(k) + ': ' + log.join(', '))
}
{
  const kinds = ['found', 'none', 'refused', 'bad', 'cut']
  const all = n => n ? all(n - 1).flatMap(x => kinds.map(k => [...x, k])) : [[]]
  const cases = []
  for (let n = 1; n <= 3; ++n)
    for (const x of all(n))
      for (const click of [false, true])
        for (const same of n > 1 ? [false, true] : [false]) {
          if (n === 3 && quick && (click || same) && x.some(k => k === 'bad')) continue
          cases.push({ kinds: x, click, same, info: n < 3 })
          }
  if (!quick) for (const x of all(4)) if (!x.some(k => k === 'bad' || k === 'cut')) cases.push({ kinds: x, click: false, same: false, info: false })
  explorations['orders'] = { cases, body: orders }
}

// very many lookups of which the answers arrive late, in every one of some
// orders, and on which the page is used on
async function longSessions(c, k) {
  const b = new Browser()
  const order = c.choose(6), kinds = [['found'], ['found', 'none'], ['found', 'refused', 'none'], ['cut', 'found'], ['refused']][c.choose(5)], together = c.choose(2)
  const how = () => k.n + ' lookups, order ' + order + ', kinds ' + kinds + (together ? ', answers and contents together' : '')
  const ls = []
  const at = [...Array(k.n).keys()]
  const seq = order === 0 ? at : order === 1 ? at.slice().reverse() : order === 2 ? at.map(i => (i * 7 + 3) % k.n).filter((x, i, a) => a.indexOf(x) === i) : order === 3 ? at.map(i => i ^ 1).filter(i => i < k.n) : order === 4 ? at.slice(k.n >> 1).concat(at.slice(0, k.n >> 1)) : [k.n - 1, ...at.slice(0, -1)]
  for (const i of at) if (!seq.includes(i)) seq.push(i)
  for (let i = 0; i < k.n; ++i) {
    c.step()
    const had = b.requests.length
    b.type('w' + i)
    if (b.requests.length !== had + 1) fail('requests', (b.requests.length - had) + ' requests for lookup ' + i + '; ' + how())
    const q = b.requests[had]
    const m = lookupBase.exec(q.url)
    if (!m || m[2] !== md5('w' + i)) fail('wrong-request', "the request for 'w" + i + "' is " + q.url)
    ls.push({ q, hash: md5('w' + i), answer: answerOf(kinds[i % kinds.length], md5('w' + i), i), state: 0 })
  }
  const last = ls[k.n - 1]
  const check = () => {
    const v = b.view()
    if (v.title !== last.hash) fail('wrong-hash', "the hash shown is '" + v.title + "' instead of " + last.hash + '; ' + how())
    if (last.state === 2) checkResult(v, last, how)
    else if (v.result && (v.found !== '' || v.isFound || v.isNot)) fail('stale-result', "the page shows '" + v.found + "' for a password the answer for which has not arrived; " + how())
    c.outcome(JSON.stringify(v))
  }
  const begin = async l => {
    c.step()
    if (l.q.aborted) { l.state = 3; return }
    if (l.answer.refuse) { b.refuse(l.q, l.answer.refuse); l.state = 2 }
    else { b.respond(l.q, l.answer); l.state = 1 }
    await drain()
    check()
  }
  const end = async l => {
    c.step()
    if (l.state !== 1) return
    b.body(l.q, l.answer)
    l.state = 2
    await drain()
    check()
  }
  for (const i of seq) { await begin(ls[i]); if (together) await end(ls[i]) }
  if (!together) for (const i of seq) await end(ls[i])
  check()
  c.state(how())
  c.note(how())
}
explorations['long-sessions'] = { cases: (quick ? [40, 130, 260] : [40, 130, 260, 1100]).map(n => ({ n })), body: longSessions }

// what triggers a lookup: all sequences of acts of the user
async function triggers(c, k) {
  const b = new Browser()
  let checked = true
  const log = []
  let word = ''
  for (let i = 0; i < k.length; ++i) {
    const a = c.choose(5)
    c.step()
    const had = b.requests.length
    let want = 0
    switch (a) {
      case 0: word += 'abc'[i % 3]; log.push('type'); b.type(word); want = checked ? 1 : 0; break
      case 1: word = word.slice(0, -1); log.push('delete'); b.type(word); want = checked ? 1 : 0; break
      case 2: log.push('click'); b.click(); want = 1; break
      case 3: checked = !checked; log.push(checked ? 'check' : 'uncheck'); b.check(checked); break
      case 4: log.push('leave'); b.byId('password').fire('focusout'); b.byId('password').fire('blur'); break
    }
    await drain()
    const fresh = b.requests.slice(had)
    if (fresh.length !== want) fail('triggers', fresh.length + ' requests instead of ' + want + ' after ' + log.join(', '))
    for (const q of fresh) {
      const m = lookupBase.exec(q.url)
      if (!m || m[2] !== md5(word)) fail('wrong-request', "the request for '" + word + "' is " + q.url)
      if (b.view().title !== md5(word)) fail('wrong-hash', "the hash shown is '" + b.view().title + "' instead of " + md5(word) + ' after ' + log.join(', '))
      const answer = answerOf(['found', 'none', 'cut', 'refused'][c.pos % 4], md5(word), i)
      if (answer.refuse) b.refuse(q, answer.refuse)
      else { b.respond(q, answer); await drain(); b.body(q, answer) }
      await drain()
      checkResult(b.view(), { answer }, () => 'after ' + log.join(', '))
    }
    c.state(log.join(','))
    c.outcome(JSON.stringify(b.view()))
  }
  c.note(log.join(', '))
}
explorations['triggers'] = { cases: (quick ? [1, 2, 3, 4, 5] : [1, 2, 3, 4, 5, 6, 7]).map(length => ({ length })), body: triggers }

// all counts of a block, as results and as the size of the database
async function numbers(c, k) {
  const b = new Browser()
  for (const n of k.values) {
    c.step()
    const had = b.requests.length
    b.type('w' + n)
    const q = b.requests[had]
    const answer = { status: 200, type: 'application/json', text: '{"hash":"' + md5('w' + n) + '","found":' + n + ',"lookup-time-ms":0.013}', found: n, time: 0.013 }
    b.respond(q, answer)
    await drain()
    b.body(q, answer)
    await drain()
    checkResult(b.view(), { answer }, () => 'found ' + n)
    c.state('n' + n)
    if (k.info) {
      const p = new Browser()
      const i = p.requests[0]
      const a = { status: 200, type: 'application/json', text: '{"count":' + n + ',"last-update":' + (n % 4000000000) + '}' }
      p.respond(i, a)
      await drain()
      p.body(i, a)
      await drain()
      if (p.byId('hash-count').text !== group(n)) fail('info-count', "the number of hashes is shown as '" + p.byId('hash-count').text + "' instead of " + group(n))
      const d = new Date(1000 * (n % 4000000000)), t = p.byId('last-update').text
      if (t !== d.toLocaleDateString() + ' ' + d.toLocaleTimeString()) fail('info-time', "the time of the last update is shown as '" + t + "' instead of " + d.toISOString())
      c.outcome(t)
    }
    b.requests.length = b.sent.length = 0
    c.outcome(b.view().found)
  }
  c.note('counts ' + k.values[0] + ' to ' + k.values[k.values.length - 1])
}
{
  const cases = []
  const top = quick ? 20000 : 400000
  for (let i = 0; i < top; i += 500) cases.push({ values: Array.from({ length: 500 }, (_, j) => i + j) })
  const edges = new Set()
  for (let p = 1; p <= 1e15; p *= 10) for (const d of [-1, 0, 1, 2]) for (const m of [1, 2, 5, 9]) edges.add(Math.max(0, p * m + d))
  for (let p = 1; p <= 2 ** 52; p *= 2) for (const d of [-1, 0, 1]) edges.add(Math.max(0, p + d))
  const e = [...edges]
  for (let i = 0; i < e.length; i += 20) cases.push({ values: e.slice(i, i + 20), info: true })
  explorations['numbers'] = { cases, body: numbers }
}

// the hash of every password: one and two characters of samples of every range
async function passwords(c, k) {
  const b = new Browser()
  b.check(false)
  b.check(true)
  for (const w of k.words) {
    c.step()
    b.requests.length = b.sent.length = 0
    b.type(w)
    const m = b.requests.length === 1 && lookupBase.exec(b.requests[0].url)
    if (!m || m[2] !== md5(w)) fail('wrong-request', 'the request for ' + JSON.stringify(w) + ' is ' + (b.requests[0] || {}).url)
    if (b.view().title !== md5(w)) fail('wrong-hash', 'the hash shown for ' + JSON.stringify(w) + ' is ' + b.view().title)
    c.state(w)
    c.outcome(m[2])
  }
  c.note('passwords ' + JSON.stringify(k.words.slice(0, 3)) + ' ...')
}
{
  const chars = []
  for (let i = 0; i < (quick ? 0x180 : 0x800); ++i) chars.push(String.fromCodePoint(i))
  for (const i of [0x7ff, 0x800, 0x2028, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f511, 0x10ffff]) chars.push(String.fromCodePoint(i))
  const cases = [{ words: ['', ...chars] }]
  for (const a of chars) cases.push({ words: chars.map(x => a + x) })
  explorations['passwords'] = { cases, body: passwords }
}

// ---------------------------------------------------------------- with the server
let server = null
async function withServer(c, k) {
  const b = new Browser()
  const ask = q => new Promise((res, rej) => {
    const u = new URL(q.url)
    http.get({ host: '127.0.0.1', port: server.port, path: u.pathname + u.search, agent: false }, r => {
      let t = ''
      r.on('data', d => { t += d })
      r.on('end', () => res({ status: r.statusCode, type: r.headers['content-type'], text: t, cors: r.headers['access-control-allow-origin'] }))
    }).on('error', rej)
  })
  const i = await ask(b.requests[0])
  b.respond(b.requests[0], i)
  await drain()
  b.body(b.requests[0], i)
  await drain()
  if (b.byId('hash-count').text !== group(server.entries.size)) fail('info-count', "the number of hashes is shown as '" + b.byId('hash-count').text + "' instead of " + group(server.entries.size) + '; answer of the server: ' + JSON.stringify(i))
  const d = new Date(1000 * server.modified)
  if (b.byId('last-update').text !== d.toLocaleDateString() + ' ' + d.toLocaleTimeString()) fail('info-time', "the last update is shown as '" + b.byId('last-update').text + "' instead of " + d.toISOString() + '; answer of the server: ' + JSON.stringify(i))
  for (const w of k.words) {
    c.step()
    const had = b.requests.length
    b.type(w)
    const q = b.requests[had]
    const a = await ask(q)
    if (a.cors !== '*') fail('cors', 'the server does not permit the page to read its answers: ' + JSON.stringify(a))
    b.respond(q, a)
    await drain()
    b.body(q, a)
    await drain()
    const v = b.view(), n = server.entries.get(w) || 0
    const want = n ? group(n) + ' times' : 'not found'
    if (!v.result || v.error || v.found !== want) fail('wrong-found', "the page shows '" + v.found + "' instead of '" + want + "' for '" + w + "'; answer of the server: " + JSON.stringify(a))
    if (!/^\d+(\.\d+)?(e-\d+)? ms$/.test(v.time)) fail('wrong-time', "the page shows the lookup time '" + v.time + "'")
    c.state(w)
    c.outcome(v.found)
  }
  c.note('words ' + k.words.slice(0, 4).join(', '))
}
async function startServer(dir) {
  fs.mkdirSync(dir, { recursive: true })
  const entries = new Map()
  for (let i = 0; i < 300; ++i) entries.set('p' + i, (i * i * i * 151) % 4294967296 + 1)
  entries.set('max', 4294967295)
  entries.set('\u00e4\u{1f511}', 1000)
  const recs = [...entries].map(([w, n]) => {
    const h = Buffer.from(md5(w), 'hex')
    // two 64-bit words in the order of the machine, most significant half first
    const r = Buffer.alloc(20)
    r.writeBigUInt64LE(h.readBigUInt64BE(0), 0)
    r.writeBigUInt64LE(h.readBigUInt64BE(8), 8)
    r.writeUInt32LE(n, 16)
    return [md5(w), r]
  }).sort((x, y) => x[0] < y[0] ? -1 : 1)
  const db = path.join(dir, 'db.md5')
  fs.writeFileSync(db, Buffer.concat(recs.map(r => r[1])))
  const modified = 1600000000
  fs.utimesSync(db, modified, modified)
  for (let attempt = 0; attempt < 20; ++attempt) {
    const port = 20000 + Math.floor((process.pid * 7919 + attempt * 104729) % 30000)
    const p = cp.spawn(arg.server, ['-I', db, '-A', 'http://127.0.0.1:' + port + '/v1/pwned/api', '-W', '16', '-T', '2'], { stdio: 'ignore' })
    let gone = false
    p.on('exit', () => { gone = true })
    for (let i = 0; i < 200 && !gone; ++i) {
      const ok = await new Promise(r => http.get({ host: '127.0.0.1', port, path: '/v1/pwned/api/info', agent: false }, x => { x.resume(); x.on('end', () => r(x.statusCode === 200)) }).on('error', () => r(false)))
      if (ok && !gone) return { p, port, entries, modified }
      await new Promise(r => setTimeout(r, 50))
    }
    p.kill('SIGKILL')
  }
  throw new Error('the server does not start')
}
{
  const words = []
  for (let i = 0; i < 300; ++i) words.push('p' + i, 'q' + i)
  words.push('max', '\u00e4\u{1f511}', '', 'x')
  const cases = []
  for (let i = 0; i < words.length; i += 40) cases.push({ words: words.slice(i, i + 40) })
  explorations['with the server'] = { cases, body: withServer, server: true }
}

// ---------------------------------------------------------------- running
const newStats = () => ({ execs: 0, transitions: 0, states: new Set(), outcomes: new Set(), depth: 0, samples: [] })
async function runOne(name, k, stack, stats) {
  const c = new Ctx(stack, stats)
  let trouble = null
  try { await explorations[name].body(c, k) }
  catch (e) {
    if (e instanceof Fail) trouble = { sig: e.sig, msg: e.message }
    else if (/^ERROR/.test(e.message)) trouble = { sig: 'ERROR', msg: e.message }
    else trouble = { sig: 'exception', msg: 'unexpected exception: ' + (e && e.stack || e) }
  }
  return { c, trouble }
}
// exceptions in handlers of the page are no results of the explorer
process.on('unhandledRejection', () => {})

async function worker(name, w) {
  const ex = explorations[name], stats = newStats(), deadline = Date.now() + 1000 * +(arg.budget || 1e6)
  let capped = false
  for (let n = w; n < ex.cases.length && !capped; n += W) {
    const stack = []
    for (;;) {
      const { c, trouble } = await runOne(name, ex.cases[n], stack, stats)
      ++stats.execs
      stats.depth = Math.max(stats.depth, c.pos)
      if (stats.samples.length < 3 && stats.execs % 17 === 1) stats.samples.push(c.notes.join(' '))
      if (trouble) return { stats, capped: true, violation: Object.assign({ path: n + ':' + stack.slice(0, c.pos).map(e => e.c).join(',') }, trouble) }
      stack.length = c.pos
      while (stack.length && stack[stack.length - 1].c + 1 >= stack[stack.length - 1].n) stack.pop()
      if (!stack.length) break
      ++stack[stack.length - 1].c
      if (Date.now() > deadline) { capped = true; break }
    }
  }
  return { stats, capped, violation: null }
}
async function main() {
  if (arg.child) {
    if (arg.port) server = { port: +arg.port, entries: new Map(JSON.parse(arg.entries)), modified: +arg.modified }
    const r = await worker(arg.child, +arg.w)
    process.send({ execs: r.stats.execs, transitions: r.stats.transitions, states: [...r.stats.states], outcomes: [...r.stats.outcomes], depth: r.stats.depth, samples: r.stats.samples, capped: r.capped, violation: r.violation })
    process.once('message', () => process.exit(0)) // it has arrived
    return
  }
  const known = new Set((arg.known || '').split(';').filter(x => x))
  const result = { explorations: [], violations: [] }
  const names = Object.keys(explorations)
  const one = { name: null }
  if (arg.replay) {
    const t = fs.readFileSync(arg.replay, 'utf8')
    one.name = /^explore=(.*)$/m.exec(t)[1]
    const [k, cs] = /^path=(.*)$/m.exec(t)[1].split(':')
    one.k = explorations[one.name].cases[+k]
    one.stack = cs ? cs.split(',').map(c => ({ c: +c, n: 0 })) : []
  }
  try {
    for (const name of names) {
      if (one.name && one.name !== name) continue
      const t0 = Date.now()
      if (explorations[name].server) server = await startServer(path.join(arg.scratch, 'server'))
      if (one.name) {
        const { trouble } = await runOne(name, one.k, one.stack, newStats())
        console.log('replay of ' + name + ': ' + (trouble ? 'FAILED ' + trouble.sig + '\n' + trouble.msg : 'ok'))
        process.exitCode = trouble ? 1 : 0
        continue
      }
      const sum = newStats()
      let capped = false
      const violations = []
      await Promise.all(Array.from({ length: W }, (_, w) => new Promise((res, rej) => {
        const args = process.argv.slice(2).concat(['--child=' + name, '--w=' + w, '--workers=' + W])
        if (server) args.push('--port=' + server.port, '--entries=' + JSON.stringify([...server.entries]), '--modified=' + server.modified)
        const p = cp.fork(__filename, args)
        let got = null
        // a message may arrive after the end of its sender has been noticed
        p.on('exit', (status, signal) => { if (!got) setTimeout(() => { if (!got) rej(new Error('worker ' + w + ' of ' + name + ' ended with ' + status + ' ' + signal)) }, 5000) })
        p.on('error', () => {})
        p.on('message', m => {
          got = m
          p.send('done', () => {})
          sum.execs += got.execs
          sum.transitions += got.transitions
          for (const s of got.states) sum.states.add(s)
          for (const s of got.outcomes) sum.outcomes.add(s)
          sum.depth = Math.max(sum.depth, got.depth)
          if (sum.samples.length < 6) sum.samples.push(...got.samples)
          capped = capped || got.capped
          if (got.violation) violations.push(got.violation)
          res()
        })
      })))
      // each is confirmed in this process
      for (const v of violations) {
        if (result.violations.some(x => x.explore === name && x.sig === v.sig)) continue
        const [k, cs] = v.path.split(':')
        const { c, trouble } = await runOne(name, explorations[name].cases[+k], cs ? cs.split(',').map(x => ({ c: +x, n: 0 })) : [], newStats())
        if (!trouble) { v.msg = 'unstable failure ' + v.sig + ': ' + v.msg; v.sig = 'ERROR' }
        result.violations.push({ explore: name, sig: v.sig, msg: v.msg, path: v.path, notes: c.notes.join('\n'), known: known.has(name + ' ' + v.sig) })
      }
      const wall = (Date.now() - t0) / 1000
      console.error(name.padEnd(28) + ' execs=' + sum.execs + ' transitions=' + sum.transitions + ' states=' + sum.states.size + ' outcomes=' + sum.outcomes.size + ' depth=' + sum.depth + (capped ? ' CAPPED ' : ' exhaustive ') + wall.toFixed(1) + 's')
      result.explorations.push({ name, executions: sum.execs, transitions: sum.transitions, states: sum.states.size, outcomes: sum.outcomes.size, max_choices: sum.depth, exhaustive: !capped, wall_s: wall, samples: sum.samples, counters: { cases: explorations[name].cases.length } })
      if (server) { server.p.kill('SIGKILL'); server = null }
    }
  }
  finally { if (server) server.p.kill('SIGKILL') }
  if (arg.out) fs.writeFileSync(arg.out, JSON.stringify(result))
  if (result.violations.some(v => !v.known)) process.exitCode = 1
}
main().catch(e => { console.error(e && e.stack || e); process.exit(2) })
