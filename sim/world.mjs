// The simulator: one process, one seeded scheduler that decides what settles next.
// Everything the library can wait for (timers, fetch, response bodies, tool and hook
// promises, consumers pulling streams, aborts, blob reads) is a pending action here;
// between two actions the microtask queue is drained completely, so one choice list
// is one exactly repeatable execution.
import { Prng, hashStr, mix } from './prng.mjs'

export const real = {
  setImmediate: globalThis.setImmediate,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  dateNow: Date.now,
  perfNow: performance.now.bind(performance),
}

const EPOCH = 1_700_000_000_000
let current = null

const need = () => {
  if (current == null)
    throw new Error('sim: seam used outside a simulated run')
  return current
}

class SimTimer {
  constructor(world, fn, ms, args, repeat) {
    this.world = world; this.fn = fn; this.args = args; this.repeat = repeat
    const d = Number(ms)
    this.ms = Number.isFinite(d) && d >= 1 ? Math.min(Math.trunc(d), 2147483647) : 1
    this.id = ++world.timerSeq
    this.due = world.now + this.ms
  }

  ref() { return this }
  unref() { return this }
  hasRef() { return true }
  refresh() { this.due = this.world.now + this.ms; return this }
  close() { this.world.timers.delete(this.id); return this }
  [Symbol.toPrimitive]() { return this.id }
}

let installed = false
/** Put every nondeterministic global behind the simulator. Done once per process. */
export const installSeams = () => {
  if (installed)
    return
  installed = true
  const def = (obj, key, value) => Object.defineProperty(obj, key, { configurable: true, value, writable: true })

  const addTimer = (fn, ms, args, repeat) => {
    const w = need()
    const t = new SimTimer(w, fn, ms, args, repeat)
    w.timers.set(t.id, t)
    w.probe('timer.set')
    w.log('timer.set', { ms: t.ms })
    return t
  }
  const delTimer = (t) => {
    const w = current
    if (w == null || t == null)
      return
    const id = typeof t === 'object' ? t.id : Number(t)
    w.timers.delete(id)
  }
  def(globalThis, 'setTimeout', (fn, ms, ...args) => addTimer(fn, ms, args, false))
  def(globalThis, 'clearTimeout', delTimer)
  def(globalThis, 'setInterval', (fn, ms, ...args) => addTimer(fn, ms, args, true))
  def(globalThis, 'clearInterval', delTimer)
  def(globalThis, 'setImmediate', (fn, ...args) => addTimer(fn, 1, args, false))
  def(globalThis, 'clearImmediate', delTimer)

  const RealDate = Date
  class SimDate extends RealDate {
    constructor(...a) { if (a.length === 0) super(current ? EPOCH + current.now : real.dateNow()); else super(...a) }
    static now() { return current ? EPOCH + current.now : real.dateNow() }
  }
  def(globalThis, 'Date', SimDate)
  def(performance, 'now', () => current ? current.now : real.perfNow())

  def(Math, 'random', () => need().appRng.float())
  const uuid = () => {
    const w = need()
    const hex = Array.from({ length: 32 }, () => w.appRng.int(16).toString(16))
    hex[12] = '4'; hex[16] = '89ab'[w.appRng.int(4)]
    const s = hex.join('')
    return `${s.slice(0, 8)}-${s.slice(8, 12)}-${s.slice(12, 16)}-${s.slice(16, 20)}-${s.slice(20)}`
  }
  def(globalThis.crypto, 'randomUUID', uuid)
  def(globalThis.crypto, 'getRandomValues', (arr) => {
    const b = new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength)
    for (let i = 0; i < b.length; i++) b[i] = need().appRng.int(256)
    return arr
  })

  // the network: only reachable through the simulator
  def(globalThis, 'fetch', async (input, init) => need().globalFetch(input, init))

  def(AbortSignal, 'timeout', (ms) => {
    const c = new AbortController()
    addTimer(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms, [], false)
    return c.signal
  })

  // browser APIs the code relies on and this Node lacks
  if (typeof Uint8Array.fromBase64 !== 'function') {
    def(Uint8Array, 'fromBase64', (b64) => {
      if (typeof b64 !== 'string')
        throw new TypeError('expected input to be a string')
      const clean = b64.replace(/[\t\n\f\r ]/g, '')
      if (!/^[A-Za-z0-9+/]*={0,2}$/.test(clean) || clean.replace(/=+$/, '').length % 4 === 1)
        throw new SyntaxError('found a character that cannot be part of a valid base64 string')
      return new Uint8Array(Buffer.from(clean, 'base64'))
    })
  }
  // reading a blob is I/O: it takes a turn of the scheduler and may fail
  for (const how of ['arrayBuffer', 'bytes', 'text']) {
    const read = Blob.prototype[how]
    if (typeof read !== 'function') continue
    let inside = 0
    def(Blob.prototype, how, function (...args) {
      const w = current
      if (!w || inside > 0) return read.apply(this, args)
      return new Promise((resolve, reject) => {
        w.busy++
        inside++
        const p = read.apply(this, args)
        inside--
        p.then((v) => {
          w.busy--
          w.post('blob', 'blob read', () => {
            const e = w.failBlob?.(this)
            if (e) reject(e)
            else resolve(v)
          })
        }, (e) => { w.busy--; reject(e) })
      })
    })
  }

  for (const k of ['log', 'info', 'warn', 'error', 'debug']) {
    const orig = console[k].bind(console)
    console[k] = (...a) => { if (current) current.consoleCalls++; else orig(...a) }
  }
  process.on('unhandledRejection', (reason) => {
    if (current) {
      current.unhandled.push(reason)
      current.log('unhandledRejection', { err: show(reason) })
    }
  })
  process.on('uncaughtException', (e) => {
    if (current) { current.uncaught.push(e); current.log('uncaughtException', { err: show(e) }) }
    else { process.stderr.write(`${e?.stack ?? e}\n`); process.exit(2) }
  })
}

export const show = (e) => e instanceof Error ? `${e.name}: ${e.message}` : typeof e === 'string' ? e : safeJson(e)
export const safeJson = (v) => {
  try {
    return JSON.stringify(v, (k, x) => {
      if (x instanceof Error) return `${x.name}: ${x.message}`
      if (x instanceof Uint8Array) return `u8:${Buffer.from(x).toString('hex')}`
      if (x instanceof ArrayBuffer) return `ab:${Buffer.from(x).toString('hex')}`
      if (typeof x === 'function') return '[fn]'
      if (typeof x === 'bigint') return `${x}n`
      if (x instanceof AbortSignal) return `[signal ${x.aborted}]`
      if (x === undefined) return undefined
      return x
    }) ?? 'undefined'
  }
  catch { return String(v) }
}

export class SimLimit extends Error {}

export class World {
  constructor({ seed, choices = null, maxSteps = 20000 }) {
    this.seed = seed
    this.rng = new Prng(mix(seed, 0x5CED))
    this.appRng = new Prng(mix(seed, 0xA99))
    this.latRng = new Prng(mix(seed, 0x1A7))
    this.replay = choices
    this.choices = []
    this.maxSteps = maxSteps
    this.now = 0
    this.timers = new Map()
    this.timerSeq = 0
    this.actions = []
    this.steps = 0
    this.busy = 0
    this.history = []
    this.sig = 0x811C9DC5
    this.faults = {}
    this.probes = {}
    this.unhandled = []
    this.uncaught = []
    this.consoleCalls = 0
    this.onQuiescent = []
    this.violations = []
    this.requests = []
    this.stopped = false
    this.tags = new Map()
    this.policy = this.rng.wpick([[4, 'uniform'], [3, 'prio'], [2, 'fifo'], [1, 'lifo'], [1, 'timersFirst'], [1, 'timersLast']])
    this.prio = new Map()
  }

  log(k, data) {
    if (this.stopped)
      return -1
    const e = { s: this.history.length, t: this.now, k, ...data }
    this.history.push(e)
    return e.s
  }

  get seq() { return this.history.length }
  probe(name, n = 1) { this.probes[name] = (this.probes[name] ?? 0) + n }
  fault(name) { this.faults[name] = (this.faults[name] ?? 0) + 1; this.log('fault', { name }) }
  violate(rule, msg) {
    if (this.violations.length < 50)
      this.violations.push({ rule, msg: String(msg).slice(0, 2000) })
  }

  /** Register something that may happen next; the scheduler decides when. */
  post(cat, label, fn, enabled, fallback = false) {
    const a = { cat, label, fn, enabled, fallback, gone: false }
    this.actions.push(a)
    return a
  }

  unpost(a) {
    if (a == null || a.gone)
      return
    a.gone = true
    const i = this.actions.indexOf(a)
    if (i >= 0) this.actions.splice(i, 1)
  }

  /** A promise the scheduler settles. */
  later(cat, label, value) {
    return new Promise((resolve, reject) => {
      this.post(cat, label, () => {
        try { resolve(typeof value === 'function' ? value() : value) }
        catch (e) { reject(e) }
      })
    })
  }

  choose(n, actions) {
    if (n <= 1)
      return 0
    let c
    if (this.replay) {
      c = this.choices.length < this.replay.length ? this.replay[this.choices.length] % n : 0
    }
    else {
      c = this.pickByPolicy(n, actions)
    }
    this.choices.push(c)
    return c
  }

  pickByPolicy(n, actions) {
    const r = this.rng
    const isTimer = i => actions[i].cat === 'timer'
    switch (this.policy) {
      case 'fifo': return r.bool(0.85) ? 0 : r.int(n)
      case 'lifo': return r.bool(0.85) ? n - 1 : r.int(n)
      case 'timersFirst': {
        const i = actions.findIndex((_, i) => isTimer(i))
        return i >= 0 && r.bool(0.85) ? i : r.int(n)
      }
      case 'timersLast': {
        const idx = actions.map((_, i) => i).filter(i => !isTimer(i))
        return idx.length > 0 && r.bool(0.95) ? idx[r.int(idx.length)] : r.int(n)
      }
      case 'prio': {
        if (r.bool(0.08)) this.prio.clear()
        if (r.bool(0.1)) return r.int(n)
        let best = 0; let bp = -1
        for (let i = 0; i < n; i++) {
          const key = actions[i].cat
          let p = this.prio.get(key)
          if (p === undefined) { p = r.float(); this.prio.set(key, p) }
          if (p > bp) { bp = p; best = i }
        }
        return best
      }
      default: return r.int(n)
    }
  }

  async drain() {
    do {
      await new Promise(r => real.setImmediate(r))
    } while (this.busy > 0)
  }

  nextTimer() {
    let best = null
    for (const t of this.timers.values()) {
      if (best == null || t.due < best.due || (t.due === best.due && t.id < best.id))
        best = t
    }
    return best
  }

  /** Run main() to quiescence under the scheduler. */
  async run(main) {
    installSeams()
    if (current != null)
      throw new Error('sim: nested run')
    current = this
    try {
      const p = (async () => main(this))()
      let mainErr
      p.then(() => { this.mainDone = true }, (e) => { mainErr = e; this.mainDone = true })
      for (;;) {
        await this.drain()
        if (mainErr !== undefined)
          throw mainErr
        for (const f of this.onQuiescent) f()
        const en = []
        for (const a of this.actions) {
          if (!a.enabled || a.enabled())
            en.push(a)
        }
        const t = this.nextTimer()
        if (t) en.push({ cat: 'timer', label: `timer +${t.due - this.now}`, timer: t })
        if (en.length === 0) {
          // nothing else can happen: now (and only now) gated actions such as a late abort may fire
          for (const a of this.actions) {
            if (a.fallback) en.push(a)
          }
        }
        if (en.length === 0)
          break
        if (++this.steps > this.maxSteps) {
          this.limit = true
          break
        }
        const a = en[this.choose(en.length, en)]
        this.sig = Math.imul(this.sig ^ hashStr(a.label), 0x01000193) >>> 0
        if (a.timer) {
          this.now = Math.max(this.now, a.timer.due)
          if (a.timer.repeat) a.timer.due = this.now + a.timer.ms
          else this.timers.delete(a.timer.id)
          this.log('timer.fire', { ms: a.timer.ms })
          try { a.timer.fn(...a.timer.args) }
          catch (e) { this.uncaught.push(e); this.log('uncaughtException', { err: show(e) }) }
        }
        else {
          this.unpost(a)
          // an event takes a little simulated time, never past a pending timer's due time
          let lat = this.latRng.int(40)
          // and now and then, nothing happens for a long while
          if (this.latRng.bool(0.006)) { lat += this.latRng.pick([5_000, 35_000, 130_000, 700_000, 4_000_000]); this.probe('time.long') }
          this.now = t ? Math.min(this.now + lat, Math.max(this.now, t.due)) : this.now + lat
          this.log('do', { a: a.label })
          a.fn()
        }
      }
    }
    finally {
      this.stopped = true
      current = null
    }
  }

  digest() {
    let h = 0x811C9DC5
    const s = safeJson(this.history)
    for (let i = 0; i < s.length; i++)
      h = Math.imul(h ^ s.charCodeAt(i), 0x01000193)
    return `${(h >>> 0).toString(16)}-${this.history.length}`
  }

  // ---- the network -------------------------------------------------------

  async globalFetch(input, init) {
    this.globalFetchCalls = (this.globalFetchCalls ?? 0) + 1
    if (!this.globalHandler)
      throw new TypeError('fetch failed (sim: no global network in this scenario)')
    return this.simFetch(input, init, this.globalHandler, 'global')
  }

  makeFetch(handler, via = 'option') {
    return async (input, init) => this.simFetch(input, init, handler, via)
  }

  simFetch(input, init, handler, via) {
    const w = this
    const isReq = typeof Request === 'function' && input instanceof Request
    const url = isReq ? input.url : String(input)
    const signal = init?.signal ?? (isReq ? input.signal : undefined)
    const headers = {}
    const h = init?.headers ?? (isReq ? input.headers : undefined)
    if (h) for (const [k, v] of new Headers(h)) headers[k] = v
    const body = init?.body
    const req = {
      n: this.requests.length,
      url,
      method: init?.method ?? (isReq ? input.method : 'GET'),
      headers,
      rawBody: body,
      // as in a real fetch, the request outlives the exchange: Node only keeps a Request's signal connected while the Request is alive
      input,
      // of a Request, everything stands that the init does not replace, but any init at all resets its referrer policy
      settings: Object.fromEntries(['cache', 'credentials', 'integrity', 'keepalive', 'redirect', 'referrerPolicy'].map(k => [k, init?.[k] ?? (!isReq ? undefined : k === 'referrerPolicy' && init && Object.keys(init).length > 0 ? '' : input[k])])),
      text: typeof body === 'string' ? body : undefined,
      form: body instanceof FormData ? [...body.entries()] : undefined,
      signal,
      via,
      at: this.now,
      body: null,
      phase: 'start',
    }
    try { req.json = typeof body === 'string' ? JSON.parse(body) : undefined } catch {}
    if (signal?.aborted) {
      this.log('fetch.preaborted', { url })
      this.probe('fetch.preaborted')
      return Promise.reject(signal.reason)
    }
    if (isReq && input.body && body === undefined) {
      // a Request's body can be sent once
      if (input.bodyUsed) {
        this.probe('fetch.body-already-used')
        return Promise.reject(new TypeError('Cannot construct a Request with a Request object that has already been used.'))
      }
      this.busy++
      input.text().then((t) => { req.text = t; this.busy-- }, () => { this.busy-- })
    }
    this.requests.push(req)
    req.s = this.log('req', { n: req.n, url, body: req.text ?? (req.form ? '[form]' : undefined) })
    let plan
    try { plan = handler(req) }
    catch (e) { this.violations.push({ rule: 'exception', msg: `simulated provider: ${e?.stack ?? e}`.slice(0, 800) }); throw e }
    req.plan = plan
    return new Promise((resolve, reject) => {
      let action
      let done = false
      let abortBody = null
      const onAbort = () => {
        if (!done) {
          done = true
          w.unpost(action)
          req.phase = 'aborted'
          w.log('req.aborted', { n: req.n })
          w.probe('abort.during-headers')
          reject(signal.reason)
        }
        else abortBody?.(signal.reason)
      }
      signal?.addEventListener?.('abort', onAbort, { once: true })
      if (plan.hangHeaders) {
        w.fault('net.hang-headers')
        return
      }
      action = w.post('net', `hdr ${req.n}`, () => {
        done = true
        if ('reject' in plan) {
          req.phase = 'failed'
          w.fault('net.connect-error')
          w.log('req.failed', { n: req.n })
          reject(plan.reject)
          return
        }
        req.phase = 'headers'
        w.log('hdr', { n: req.n, status: plan.status ?? 200 })
        const res = w.makeResponse(req, plan, (f) => { abortBody = f })
        if (!(res instanceof Error)) resolve(res)
        else reject(res)
        plan.onHeaders?.()
      })
    })
  }

  makeResponse(req, plan, setAbort) {
    const w = this
    const status = plan.status ?? 200
    const init = { status, statusText: plan.statusText ?? '', headers: plan.headers ?? {} }
    const b = { n: req.n, state: 'open', delivered: 0, pieces: plan.pieces?.length ?? 0 }
    if (plan.kind === 'null' || status === 304) {
      w.fault('net.null-body')
      return named(new Response(null, init), req.url)
    }
    if (plan.kind === 'nonstream') {
      w.fault('net.non-stream-body')
      return { body: plan.bodyValue ?? 'not a stream', headers: new Headers(init.headers), ok: status >= 200 && status < 300, status, statusText: init.statusText, url: req.url, text: async () => String(plan.bodyValue), json: async () => ({}) }
    }
    req.body = b
    const pieces = plan.pieces ?? []
    let ctrl
    let action = null
    let wake = null
    const finish = (state) => {
      b.state = state
      w.unpost(action)
      action = null
      const f = wake
      wake = null
      f?.()
    }
    setAbort((reason) => {
      if (b.state !== 'open')
        return
      w.log('body.aborted', { n: req.n })
      w.probe('abort.during-body')
      try { ctrl.error(reason) } catch {}
      finish('aborted')
    })
    const arm = () => {
      if (action || b.state !== 'open')
        return
      const i = b.delivered
      if (i < pieces.length) {
        action = w.post('net', `body ${req.n}.${i}`, () => {
          action = null
          b.delivered++
          w.log('chunk', { n: req.n, i, len: pieces[i].length })
          ctrl.enqueue(pieces[i].slice())
          plan.onPiece?.(i === pieces.length - 1)
          if (plan.push) arm()
          const f = wake
          wake = null
          f?.()
        })
      }
      else if (plan.end === 'hang') {
        if (!b.hung) { b.hung = true; w.fault('net.stall') }
      }
      else {
        action = w.post('net', `end ${req.n}`, () => {
          action = null
          if (plan.end === 'error') {
            w.fault('net.body-error')
            w.log('body.error', { n: req.n })
            ctrl.error(plan.endError)
            finish('errored')
          }
          else {
            w.log('body.close', { n: req.n })
            ctrl.close()
            if (plan.byob) { try { ctrl.byobRequest?.respond(0) } catch {} }
            finish('closed')
            plan.onEnd?.()
          }
        })
      }
    }
    const source = {
      start: (c) => {
        ctrl = c
        if (plan.instant) {
          // the whole body is there when the headers arrive, as with a small response or a mocked one
          w.probe('body.instant')
          for (const x of pieces) ctrl.enqueue(x.slice())
          b.delivered = pieces.length
          w.log('chunk', { n: req.n, i: pieces.length - 1, len: 0 })
          if (plan.end === 'close') { w.log('body.close', { n: req.n }); ctrl.close(); finish('closed') }
        }
        if (plan.push) arm()
      },
      pull: () => {
        if (plan.push) return
        arm()
        return new Promise((r) => { wake = r })
      },
      cancel: (reason) => {
        w.log('body.cancel', { n: req.n })
        w.probe('body.cancelled')
        b.cancelReason = reason
        finish('cancelled')
        if (plan.cancelError) { w.fault('net.cancel-fails'); throw plan.cancelError }
      },
    }
    const stream = plan.byob
      ? new ReadableStream({ ...source, type: 'bytes' }, { highWaterMark: 0 })
      : new ReadableStream(source, { highWaterMark: plan.hwm ?? 0 })
    return named(new Response(stream, init), req.url)
  }
}

const named = (res, url) => {
  Object.defineProperty(res, 'url', { configurable: true, value: url })
  // now and then the request was redirected on its way
  if (current?.latRng.bool(0.03)) Object.defineProperty(res, 'redirected', { configurable: true, value: true })
  return res
}

// ---- observation helpers -------------------------------------------------

/** Watch a promise from the moment it exists. */
export const observe = (w, name, p) => {
  const o = { name, state: 'pending', settled: 0 }
  p.then(
    (v) => { o.state = 'fulfilled'; o.value = v; o.settled++; o.s = w.log('settle', { name, ok: true }) },
    (e) => { o.state = 'rejected'; o.error = e; o.settled++; o.s = w.log('settle', { name, ok: false, err: show(e) }) },
  )
  return o
}

/**
 * Read a stream under the scheduler.
 * cfg: {mode:'read'|'slow'|'cancel'|'ignore', after, late}
 */
export const consume = (w, name, stream, cfg = { mode: 'read' }) => {
  const o = { name, items: [], itemSeqs: [], state: 'open', mode: cfg.mode }
  if (typeof stream?.getReader !== 'function') { o.state = 'absent'; w.violations.push({ rule: 'stream.missing', msg: `the result has no ${name} stream: ${show(stream)}` }); return o }
  if (cfg.mode === 'ignore')
    return o
  const turn = label => new Promise(r => w.post(`consume:${name}`, label, r))
  ;(async () => {
    if (cfg.late) await turn(`attach ${name}`)
    const reader = stream.getReader()
    o.attached = true
    if (cfg.inCb !== undefined) {
      // cancelled from inside one of the caller's callbacks, in the middle of the producer's turn
      o.inCb = cfg.inCb
      o.cancelNow = () => {
        o.cancelNow = undefined
        if (o.state !== 'open') return
        o.cancelledAt = w.log('consumer.cancel', { name })
        w.fault('consumer.cancel-in-callback')
        o.state = 'cancelled'
        reader.cancel(new Error('consumer went away')).then(() => { o.cancelResult = 'ok' }, (e) => { o.cancelResult = e })
      }
    }
    if (cfg.mode === 'cancel' && cfg.after === 0) {
      o.cancelledAt = w.log('consumer.cancel', { name })
      w.fault('consumer.cancel')
      o.state = 'cancelled'
      try { await reader.cancel(new Error('consumer went away')) ; o.cancelResult = 'ok' } catch (e) { o.cancelResult = e }
      return
    }
    for (;;) {
      if (cfg.mode === 'slow') await turn(`read ${name}`)
      o.waiting = true
      let r
      try { r = await reader.read() }
      catch (e) { o.waiting = false; if (o.state === 'cancelled') return; o.state = 'errored'; o.error = e; o.s = w.log('stream.error', { name, err: show(e) }); return }
      o.waiting = false
      if (o.state === 'cancelled') return
      if (r.done) { o.state = 'closed'; o.s = w.log('stream.close', { name }); return }
      o.items.push(r.value)
      o.itemSeqs.push(w.log('item', { name, v: snapshotItem(r.value) }))
      if (cfg.mode === 'cancel' && o.items.length >= cfg.after) {
        // possibly a little later, while data is in flight
        if (cfg.deferred) {
          await turn(`cancel ${name}`)
        }
        o.cancelledAt = w.log('consumer.cancel', { name })
        w.fault('consumer.cancel')
        o.state = 'cancelled'
        try { await reader.cancel(new Error('consumer went away')); o.cancelResult = 'ok' } catch (e) { o.cancelResult = e }
        return
      }
    }
  })().catch((e) => { o.state = 'harness-error'; o.error = e; w.uncaught.push(e) })
  return o
}

const snapshotItem = v => v instanceof Uint8Array ? `u8:${v.length}` : typeof v === 'string' ? v : safeJson(v)

export const deepEq = (a, b) => {
  if (Object.is(a, b)) return true
  if (typeof a !== 'object' || typeof b !== 'object' || a == null || b == null) return false
  if (a instanceof Uint8Array && b instanceof Uint8Array) {
    if (a.length !== b.length) return false
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false
    return true
  }
  if (Array.isArray(a) !== Array.isArray(b)) return false
  const ka = Object.keys(a).filter(k => a[k] !== undefined)
  const kb = Object.keys(b).filter(k => b[k] !== undefined)
  if (ka.length !== kb.length) return false
  for (const k of ka) if (!deepEq(a[k], b[k])) return false
  return true
}
