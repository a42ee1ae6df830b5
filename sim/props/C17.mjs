// createFetch: a bounded, spaced retry of the same request; the last response comes back intact.
import { setFlagsFromString } from 'node:v8'
import { runInNewContext } from 'node:vm'
import { BUSY, busyRun } from '../conv-prop.mjs'
import { deepEq, observe, show } from '../world.mjs'

const enc = new TextEncoder()
// what only stays connected until the next garbage collection must not carry a guarantee
setFlagsFromString('--expose-gc')
const collectGarbage = runInNewContext('gc')
const DEFAULT_CODES = [408, 409, 425, 429, 500, 502, 503, 504]
const bytesOf = n => Array.from({ length: n }, (_, i) => i)

export default {
  id: 'C17',
  rule: BUSY,
  runs: { quick: 60000, thorough: 12000000 },
  real: ['xsfetch (createFetch)', '@moeru/std sleep and trampoline', 'Node Request/Response/Headers/AbortSignal'],
  stub: ['the network behind globalThis.fetch', 'clock and timers (virtual)'],
  assumptions: ['a request body given as a one-shot stream in init is not generated: no client can send it twice'],
  gen: (rng) => {
    const inst = () => {
      const o = {}
      if (rng.bool(0.6)) o.retry = rng.wpick([[2, 0], [3, 1], [3, 2], [2, 4], [1, 7], [0.1, 60]])
      if (rng.bool(0.7)) o.retryDelay = rng.wpick([[1, 0], [3, 10], [2, 250], [1, 5000]])
      if (rng.bool(0.3)) o.retryStatusCodes = rng.pick([[404], [503], [], [500, 418], [429, 200], [301, 400]])
      if (rng.bool(0.2)) o.debug = rng.bool(0.8)
      return o
    }
    const instances = Array.from({ length: 1 + rng.int(3) }, inst)
    if (rng.bool(0.4)) instances.push(null)
    const calls = Array.from({ length: rng.wpick([[4, 1], [3, 2], [2, 4]]) }, (_, i) => {
      const at = rng.int(instances.length)
      const o = instances[at] ?? {}
      const codes = o.retryStatusCodes ?? DEFAULT_CODES
      const bad = () => rng.bool(0.85) && codes.length ? rng.pick(codes) : rng.pick([400, 404, 500, 503, 529, 301])
      const len = rng.wpick([[2, 0], [3, 1], [3, 2], [2, rng.int(6)], [1, (o.retry ?? 3) + 1]])
      const attempts = Array.from({ length: len }, () => ({ status: bad() }))
      attempts.push(rng.wpick([[6, { status: 200 }], [1, { status: 204, nobody: true }], [1, { status: 404 }], [1, { reject: true }], [0.4, { hang: true }]]))
      for (const a of attempts) {
        if (a.reject || a.hang) continue
        a.pieces = a.nobody ? 0 : rng.int(4)
        a.end = a.nobody ? 'close' : rng.wpick([[6, 'close'], [1, 'error'], [1, 'hang']])
        a.push = rng.bool(0.3)
        if (rng.bool(0.15)) a.cancelFails = true
        // what the server would like is not what is configured
        if (rng.bool(0.15)) a.after = rng.pick(['0', '1', '120', 'Wed, 21 Oct 2099 07:28:00 GMT'])
        if (!a.nobody && rng.bool(0.1)) { a.nobody = true; a.pieces = 0 }
      }
      return {
        inst: at,
        form: rng.wpick([[4, 'string'], [2, 'url'], [3, 'request'], [1, 'request-init']]),
        body: rng.wpick([[3, 'text'], [2, 'none'], [1, 'bytes'], [1, 'form']]),
        method: rng.pick(['POST', 'PUT', 'GET']),
        headers: rng.wpick([[3, 'plain'], [1, 'Headers'], [1, 'none']]),
        signal: rng.bool(0.3),
        settings: rng.bool(0.2) ? rng.pick([{ redirect: 'manual' }, { credentials: 'include', referrerPolicy: 'no-referrer' }, { cache: 'no-store', redirect: 'error' }, { keepalive: true }]) : {},
        attempts,
        later: rng.bool(0.4),
        i,
      }
    })
    for (const c of calls) {
      if (c.method === 'GET') c.body = 'none'
      if (c.signal && c.form === 'request' && rng.bool(0.3)) c.gc = true
      if (c.signal && rng.bool(0.8)) c.abort = rng.wpick([[1, { on: 'req', nth: 1 + rng.int(3) }], [3, { on: 'hdr', nth: 1 + rng.int(3) }], [1, { on: 'start' }], [1, { on: 'pre' }]])
    }
    return { instances, calls }
  },
  main: async (w, L, sc) => {
    const fetches = sc.instances.map(o => o === null ? L.xsfetch.createFetch() : L.xsfetch.createFetch(o))
    const st = { calls: [], optJ: JSON.stringify(sc.instances) }
    w.globalHandler = (req) => {
      const i = Number(/call-(\d+)/.exec(req.url)[1])
      const s = st.calls[i]
      const a = sc.calls[i].attempts[s.reqs.length] ?? { status: 599, pieces: 0, end: 'close' }
      s.reqs.push(req)
      w.probe('attempt')
      if (a.hang) return { hangHeaders: true }
      if (a.reject) { s.netErr = new TypeError(`network ${i}`); return { reject: s.netErr } }
      if (a.status >= 400) w.fault(`http.${a.status}`)
      const n = s.reqs.length
      const plan = { status: a.status, headers: { 'x-attempt': String(n), 'content-type': 'text/plain', ...(a.after ? { 'retry-after': a.after } : {}) }, pieces: bytesOf(a.pieces).map(p => enc.encode(`${n}.${p};`)), end: a.end, endError: new TypeError(`body ${i}.${n}`), push: a.push, ...(a.cancelFails ? { cancelError: new TypeError(`cancel ${i}.${n}`) } : {}), ...(a.nobody ? { kind: a.status === 204 ? 'null' : 'null' } : {}) }
      return plan
    }
    // when an attempt's headers arrive
    w.onQuiescent.push(() => {
      for (const s of st.calls) {
        if (!s) continue
        for (const r of s.reqs) if (r.phase === 'headers' && r.hdrAt === undefined) { r.hdrAt = w.now; r.hdrS = w.seq }
      }
    })
    await Promise.all(sc.calls.map(async (c, i) => {
      const s = st.calls[i] = { reqs: [] }
      if (c.later) await w.later('start', `start ${i}`)
      const url = `https://x.test/call-${i}?q=1`
      const headers = { 'content-type': 'application/json', 'x-call': `c${i}` }
      const H = c.headers === 'none' ? undefined : c.headers === 'Headers' ? new Headers(headers) : headers
      s.wantHeaders = c.headers === 'none' ? {} : headers
      const body = c.body === 'text' ? JSON.stringify({ i, text: 'é🙂' }) : c.body === 'bytes' ? new Uint8Array([1, 2, 255]) : c.body === 'form' ? (() => { const f = new FormData(); f.set('a', `v${i}`); return f })() : undefined
      s.body = body
      let ac
      if (c.signal) {
        ac = new AbortController()
        const reason = new Error(`abort ${i}`)
        s.reason = reason
        const fire = () => { if (c.gc) { collectGarbage(); w.fault('gc') } s.abortS = w.log('abort', { i }); s.abortReqs = s.reqs.length; w.fault('abort'); ac.abort(reason) }
        if (c.abort?.on === 'pre') fire()
        else if (c.abort) w.post('abort', `abort ${i}`, fire, () => c.abort.on === 'start' || (c.abort.on === 'req' ? s.reqs.length >= c.abort.nth : s.reqs.filter(r => r.phase === 'headers').length >= c.abort.nth), true)
      }
      const init = { ...c.settings, method: c.method, headers: H, ...(body !== undefined ? { body } : {}), ...(ac ? { signal: ac.signal } : {}) }
      let args
      if (c.form === 'url') args = [new URL(url), init]
      else if (c.form === 'request') args = [new Request(url, init)]
      else if (c.form === 'request-init') args = [new Request(url, { method: 'POST', body: 'replaced' }), init]
      else args = [url, init]
      s.args = args
      w.log('call', { i })
      let p
      try { p = fetches[c.inst](...args) }
      catch (e) { s.threw = e; return }
      s.result = observe(w, `call ${i}`, p)
      s.result.done = p.then(async (res) => {
        s.atReturn = s.reqs.length
        if (res.body && !res.bodyUsed) {
          s.read = observe(w, `read ${i}`, res.text())
        }
        else { s.noBody = true }
      }, () => {})
    }))
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg })
    if (JSON.stringify(sc.instances) !== st.optJ) bad('retry.options', 'the options object was modified')
    st.calls.forEach((s, i) => {
      const c = sc.calls[i]
      const say = (rule, msg) => bad(rule, `call ${i} (${JSON.stringify(sc.instances[c.inst])}): ${msg}`)
      if (s.threw) { say('retry.sync-throw', show(s.threw)); return }
      const o = sc.instances[c.inst] ?? {}
      const retry = o.retry ?? 3
      const delay = o.retryDelay ?? 500
      const codes = o.retryStatusCodes ?? DEFAULT_CODES
      // what must happen without an abort
      let n = 0
      let final
      for (; n <= retry; n++) {
        const a = c.attempts[n] ?? { status: 599, pieces: 0, end: 'close' }
        if (a.hang) { final = { hang: true }; break }
        if (a.reject) { final = { reject: true }; break }
        if ((a.status >= 200 && a.status < 300) || !codes.includes(a.status) || n === retry) { final = { a }; break }
      }
      const wantAttempts = n + 1
      const aborted = s.abortS !== undefined
      const r = s.result
      // spacing and sameness hold whatever else happens
      s.reqs.forEach((q, k) => {
        if (k > 0) {
          const prev = s.reqs[k - 1]
          if (prev.hdrAt === undefined) say('retry.overlap', `attempt ${k + 1} started before attempt ${k} was answered`)
          else if (q.at - prev.hdrAt < Math.max(delay, 0)) say('retry.delay', `attempt ${k + 1} came ${q.at - prev.hdrAt} ms after the failure, the delay is ${delay}`)
          else if (q.at - prev.hdrAt > Math.max(delay, 0) + 2) say('retry.delay-long', `attempt ${k + 1} came only ${q.at - prev.hdrAt} ms after the failure, the delay is ${delay}`)
        }
        if (!q.url.startsWith(`https://x.test/call-${i}?q=1`)) say('retry.same-request', `attempt ${k + 1} went to ${q.url}`)
        if (q.method !== c.method) say('retry.same-request', `attempt ${k + 1} used ${q.method}, expected ${c.method}`)
        for (const [h, v] of Object.entries(s.wantHeaders)) if (q.headers[h] !== v) say('retry.same-request', `attempt ${k + 1} header ${h} is ${q.headers[h]}, expected ${v}`)
        const want = s.body
        if (c.form === 'request') {
          const t = c.body === 'text' ? want : c.body === 'bytes' ? undefined : c.body === 'none' ? undefined : null
          if (t === undefined && c.body === 'none' ? q.text !== undefined : t && q.text !== t) say('retry.same-request', `attempt ${k + 1} sent the body ${JSON.stringify(q.text)}`)
          if (c.body === 'form' && !/name="a"\r\n\r\nv\d/.test(q.text ?? '')) say('retry.same-request', `attempt ${k + 1} sent the form ${JSON.stringify(q.text)}`)
        }
        else if (want !== undefined && q.rawBody !== want && !deepEq(q.rawBody, want)) say('retry.same-request', `attempt ${k + 1} sent another body`)
        for (const [name, v] of Object.entries(c.settings)) if (q.settings[name] !== v) say('retry.same-request', `attempt ${k + 1} has ${name}: ${show(q.settings[name])}, expected ${show(v)}`)
        if (!aborted && c.signal && !q.signal) say('retry.signal', `attempt ${k + 1} was sent without the caller's signal`)
      })
      if (s.reqs.length > wantAttempts) say('retry.too-many', `${s.reqs.length} attempts were made, at most ${wantAttempts} are allowed (retry ${retry}, answers ${c.attempts.map(a => a.status ?? (a.reject ? 'reject' : 'hang'))})`)
      // every response that was given up is released
      const returned = r.state === 'fulfilled' ? s.reqs.length - 1 : -1
      s.reqs.forEach((q, k) => {
        if (k !== returned && q.body && q.body.state === 'open') say('retry.leak', `the response of attempt ${k + 1} was given up but never released`)
      })
      if (aborted) {
        if (r.state === 'pending') { say('retry.abort-pending', 'never settles after the abort'); return }
        if (s.reqs.length > s.abortReqs) say('retry.abort-request', `${s.reqs.length - s.abortReqs} requests were sent after the abort`)
        if (r.state === 'rejected' && r.error !== s.reason && !(final?.reject && r.error === s.netErr)) say('retry.abort-reason', `rejected with ${show(r.error)}`)
        if (r.state === 'fulfilled' && r.s > s.abortS && s.reqs.length < wantAttempts) say('retry.abort-ignored', 'resolved with a response it should have retried')
        return
      }
      if (final.hang) { if (r.state !== 'pending' || s.reqs.length !== wantAttempts) say('retry.attempts', `${s.reqs.length} attempts, ${r.state}; expected to wait for attempt ${wantAttempts}`); return }
      if (s.reqs.length !== wantAttempts) say('retry.attempts', `${s.reqs.length} attempts were made, expected ${wantAttempts} (retry ${retry}, answers ${c.attempts.map(a => a.status ?? (a.reject ? 'reject' : 'hang'))})`)
      if (r.state === 'pending') { say('retry.pending', 'never settles'); return }
      if (final.reject) { if (r.state !== 'rejected' || r.error !== s.netErr) say('retry.network-error', `a network failure surfaced as ${r.state} ${show(r.error)}`); return }
      if (r.state !== 'fulfilled') { say('retry.rejected', `rejected with ${show(r.error)}`); return }
      const res = r.value
      const a = final.a
      if (!(res instanceof Response) || res.status !== a.status || res.headers.get('x-attempt') !== String(wantAttempts)) { say('retry.response', `returned status ${res?.status} of attempt ${res?.headers?.get?.('x-attempt')}, expected ${a.status} of attempt ${wantAttempts}`); return }
      if (!a.nobody) {
        if (!s.read) { say('retry.body', 'the returned response has no readable body'); return }
        if (a.end === 'close') {
          const want = bytesOf(a.pieces).map(p => `${wantAttempts}.${p};`).join('')
          if (s.read.state !== 'fulfilled' || s.read.value !== want) say('retry.body', `the returned body is ${s.read.state} ${show(s.read.value ?? s.read.error)}, expected ${want}`)
        }
        else if (a.end === 'error' && s.read.state !== 'rejected') { say('retry.body', `the broken body reads as ${s.read.state}`) }
      }
    })
    for (const e of w.unhandled) bad('unhandled.rejection', show(e))
    return out
  },
  nontrivial: busyRun,
}
