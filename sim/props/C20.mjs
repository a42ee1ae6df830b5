// streamSpeech: the audio bytes, the usage and the failures.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { Prng } from '../prng.mjs'
import { genCons } from '../source.mjs'
import { completeEvents, genWire, wirePlan } from '../sse.mjs'
import { faultTerminal, genBodyWire, genExtras, genUnaryFault, unaryPlan, wireNames, wrongFailure } from '../unary.mjs'
import { consume, deepEq, observe, show } from '../world.mjs'

const b64 = a => Buffer.from(a).toString('base64')
const flat = items => Buffer.concat(items.map(x => Buffer.from(x)))

export default {
  id: 'C20',
  rule: BUSY,
  runs: { quick: 30000, thorough: 8000000 },
  real: ['stream-speech', 'shared-stream', 'shared', 'Node web streams / TextDecoder / EventSource parser'],
  stub: ['the provider and network (scripted)', 'the consumer (scripted)', 'Uint8Array.fromBase64 (this Node lacks it)'],
  assumptions: ['nothing is claimed about the value of the usage of a stream the caller never reads'],
  gen: (rng) => {
    const n = rng.bool(0.01) ? 20 + rng.int(60) : rng.int(7)
    const sc = {
      model: `tts-${rng.int(4)}`,
      chunks: Array.from({ length: n }, () => Array.from({ length: rng.wpick([[1, 0], [4, 1 + rng.int(6)], [1, 40], [0.02, 9000]]) }, () => rng.int(256))),
      usage: rng.bool(0.7) ? rng.bool(0.1) ? { i: 0, o: 0 } : { i: rng.int(50), o: rng.int(500), ...(rng.bool(0.3) ? { x: 1 + rng.int(9) } : {}) } : null,
      done: rng.bool(0.9),
      extra: rng.bool(0.2), // an event type of the future
      wire: genWire(rng),
      bwire: genBodyWire(rng),
      opts: {},
      apiKey: rng.bool(0.6) ? 'sk-1' : undefined,
      cons: genCons(rng),
      usageRead: rng.wpick([[5, 'at-once'], [2, 'late'], [2, 'never']]),
      fault: null,
    }
    if (sc.chunks.length && rng.bool(0.06)) { const at = rng.int(sc.chunks.length); sc.chunks.splice(at, 0, rng.bool() ? sc.chunks[at] : Array(30).fill(0), Array(30).fill(0)) }
    if (rng.bool(0.4)) sc.opts.voice = 'alloy'
    if (rng.bool(0.4)) sc.opts.responseFormat = rng.pick(['mp3', 'wav'])
    if (rng.bool(0.3)) sc.opts.speed = 1.5
    if (rng.bool(0.1)) sc.extras = genExtras(rng)
    if (rng.bool(0.4)) {
      sc.fault = rng.wpick([[3, () => genUnaryFault(rng, { json: false })], [2, () => ({ k: 'cut', frac: rng.float(), mode: rng.bool(0.7) ? 'error' : rng.bool() ? 'close' : 'hang' })], [2, () => ({ k: 'badjson', frac: rng.float(), data: rng.pick(['oops', '{"type":']) })], [2, () => ({ k: 'sseerror', frac: rng.float(), json: { error: { message: 'overloaded' } } })], [2, () => ({ k: 'badb64', frac: rng.float(), data: rng.pick(['@@@@', 'a']) })]])()
    }
    if (rng.bool(0.2)) sc.abort = rng.wpick([[1, { on: 'pre' }], [3, { on: 'chunk', nth: rng.int(8) }], [1, { on: 'req' }]])
    return sc
  },
  main: async (w, L, sc) => {
    const st = { errs: {}, reqs: [] }
    const mkErr = (m) => { const e = new TypeError(`sim ${m}`); st.errs[m] = e; return e }
    const events = sc.chunks.map(c => ({ json: { type: 'speech.audio.delta', audio: b64(c) }, bytes: c }))
    if (sc.extra) events.splice(events.length >> 1, 0, { json: { type: 'speech.audio.viseme', v: 1 }, bytes: [] })
    if (sc.done) events.push({ json: { type: 'speech.audio.done', ...(sc.usage ? { usage: { input_tokens: sc.usage.i, output_tokens: sc.usage.o, total_tokens: sc.usage.i + sc.usage.o + (sc.usage.x ?? 0) } } : {}) }, bytes: [] })
    st.events = events
    const f = sc.fault
    const fetch = w.makeFetch((req) => {
      st.reqs.push(req)
      let plan
      if (f && !['badjson', 'sseerror', 'badb64', 'cut'].includes(f.k)) plan = unaryPlan(new Uint8Array(), sc.bwire, f, mkErr)
      else {
        let list = events
        if (f && f.k !== 'cut') {
          st.at = Math.floor(f.frac * events.length)
          list = [...events.slice(0, st.at), f.k === 'badjson' ? { data: f.data } : f.k === 'sseerror' ? { json: f.json } : { json: { type: 'speech.audio.delta', audio: f.data } }, ...events.slice(st.at)]
        }
        plan = wirePlan(list, sc.wire, Prng, f?.k === 'cut' ? f : null, mkErr('body'))
        if (f) plan.faultName = f.k === 'cut' ? `net.cut-${f.mode}` : `net.${f.k}`
      }
      if (plan.faultName) w.fault(plan.faultName)
      st.plan = plan
      return plan
    })
    let ac
    if (sc.abort) {
      ac = new AbortController()
      st.reason = new Error('user abort')
      const fire = () => { st.abortS = w.log('abort', {}); w.fault('abort'); ac.abort(st.reason) }
      if (sc.abort.on === 'pre') fire()
      else w.post('abort', 'abort', fire, () => sc.abort.on === 'req' ? st.reqs.length > 0 : (st.reqs[0]?.body?.delivered ?? -1) >= sc.abort.nth, true)
    }
    const options = { baseURL: 'https://x.test/v1', model: sc.model, input: 'say this é', voice: 'nova', ...sc.opts, ...structuredClone(sc.extras ?? {}), fetch, ...(sc.apiKey ? { apiKey: sc.apiKey } : {}), ...(ac ? { abortSignal: ac.signal } : {}) }
    st.options = options
    st.json = JSON.stringify({ ...options, fetch: undefined, abortSignal: undefined })
    const p = L.xsai.streamSpeech(options)
    st.call = observe(w, 'call', p)
    p.then((res) => {
      st.c = consume(w, 'audio', res.fullStream, sc.cons)
      if (sc.usageRead === 'at-once') st.usage = observe(w, 'usage', res.usage)
      else if (sc.usageRead === 'late') w.post('user', 'reads the usage', () => { st.usage = observe(w, 'usage', res.usage) }, () => st.c.state !== 'open', true)
    }, () => {})
    w.onQuiescent.push(() => {
      const b = st.reqs[0]?.body
      if (st.late || !st.c || st.c.mode !== 'read' || st.c.state !== 'open' || !b || b.state !== 'open' || !st.plan.meta || (f && f.k !== 'cut') || st.abortS !== undefined) return
      const n = completeEvents(st.plan.meta, b.delivered)
      const want = flat(events.slice(0, n).map(e => e.bytes))
      const got = flat(st.c.items)
      if (got.length < want.length) st.late = `${got.length} of ${want.length} bytes were delivered`
    })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg })
    for (const e of w.unhandled) bad('unhandled.rejection', show(e))
    if (JSON.stringify({ ...st.options, fetch: undefined, abortSignal: undefined }) !== st.json) bad('speech.options', 'the caller\'s options were modified')
    const f = sc.fault
    const r = st.call
    const aborted = st.abortS !== undefined
    const q = st.reqs[0]
    if (st.reqs.length > 1) bad('speech.requests', `${st.reqs.length} requests were sent`)
    if (q) {
      if (q.url !== 'https://x.test/v1/audio/speech' || q.method !== 'POST') bad('speech.request', `${q.method} ${q.url}`)
      const want = { model: sc.model, input: 'say this é', voice: sc.opts.voice ?? 'nova', stream_format: 'sse', ...(sc.opts.responseFormat ? { response_format: sc.opts.responseFormat } : {}), ...(sc.opts.speed ? { speed: sc.opts.speed } : {}), ...wireNames(sc.extras ?? {}) }
      if (!deepEq(q.json, want)) bad('speech.request', `sent ${q.text}, expected ${JSON.stringify(want)}`)
      if (q.headers.authorization !== (sc.apiKey ? `Bearer ${sc.apiKey}` : undefined)) bad('speech.request', `authorization ${q.headers.authorization}`)
    }
    if (st.late) bad('speech.prompt', st.late)
    const early = f && !['badjson', 'sseerror', 'badb64', 'cut'].includes(f.k)
    if (r.state === 'pending') { if (!(f?.k === 'hang-headers' && !aborted)) bad('speech.pending', 'the call never settles'); return out }
    if (aborted && r.state === 'rejected') {
      if (r.error !== st.reason && (!early || wrongFailure(f, r.error, st.errs, L))) bad('speech.abort', `rejected with ${show(r.error)}`)
      return out
    }
    if (early && f.k !== 'hang-headers') {
      if (r.state === 'fulfilled') bad('speech.swallowed', `resolved despite ${JSON.stringify(f)}`)
      else { const m = wrongFailure(f, r.error, st.errs, L); if (m) bad('speech.error', m) }
      return out
    }
    if (r.state === 'rejected') { bad('speech.spurious', show(r.error)); return out }
    const c = st.c
    const all = flat(st.events.map(e => e.bytes))
    const n = f && f.k !== 'cut' ? st.at : f?.k === 'cut' ? st.plan.meta.complete : st.events.length
    const could = flat(st.events.slice(0, n).map(e => e.bytes))
    const wantUsage = st.events.slice(0, n).some(e => e.json.type === 'speech.audio.done') && sc.usage ? { inputTokens: sc.usage.i, outputTokens: sc.usage.o, totalTokens: sc.usage.i + sc.usage.o + (sc.usage.x ?? 0) } : undefined
    if (c.mode === 'ignore') return out
    const got = flat(c.items)
    if (c.items.some(x => !(x instanceof Uint8Array))) bad('speech.type', 'something other than bytes was delivered')
    // a cut inside an event may still deliver it when the rest of the line was already there
    const limit = f?.k === 'cut' ? all : could
    if (got.length > limit.length || !limit.subarray(0, got.length).equals(got)) bad('speech.bytes', `delivered ${got.toString('hex')}, the provider sent ${limit.toString('hex')}`)
    const failure = f && (f.k !== 'cut' || f.mode === 'error')
    if (c.state === 'open') { if (!(f?.k === 'cut' && f.mode === 'hang') && c.mode !== 'cancel') bad('speech.open', 'the audio stream never ends') }
    else if (c.state === 'closed') {
      if (failure) bad('speech.swallowed', `the audio ended normally despite ${JSON.stringify(f)}`)
      if (got.length < could.length) bad('speech.bytes', `ended after ${got.length} of ${could.length} bytes`)
    }
    else if (c.state === 'errored') {
      if (aborted && c.error === st.reason) { /* as asked */ }
      else if (!failure) bad('speech.spurious', `failed with ${show(c.error)}`)
      else if (f.k === 'badb64') { if (!(c.error instanceof Error)) bad('speech.error', show(c.error)) }
      else { const m = wrongFailure(f, c.error, st.errs, L); if (m) bad('speech.error', m) }
    }
    if (aborted && c.state === 'open' && c.mode !== 'cancel') bad('speech.abort', 'the audio stream is still open after the abort')
    // usage
    const u = st.usage
    if (u) if (c.state === 'closed' || c.state === 'errored' || c.state === 'cancelled') {
      if (u.state === 'pending') bad('speech.usage-pending', `usage never settles although the audio stream is ${c.state}`)
      if (c.state === 'closed' && (u.state !== 'fulfilled' || !deepEq(u.value, wantUsage))) { if (!(f?.k === 'cut' && u.state === 'fulfilled')) bad('speech.usage', `usage is ${u.state} ${JSON.stringify(u.value ?? show(u.error))}, expected ${JSON.stringify(wantUsage)}`) }
      if (c.state === 'errored') {
        const ok = u.state === 'rejected' ? u.error === c.error : deepEq(u.value, wantUsage) && wantUsage !== undefined
        if (!ok) bad('speech.usage', `the audio failed with ${show(c.error)} but usage is ${u.state} ${JSON.stringify(u.value ?? show(u.error))}`)
      }
      if (c.state === 'cancelled' && u.state === 'fulfilled' && u.value !== undefined && !deepEq(u.value, sc.usage && { inputTokens: sc.usage.i, outputTokens: sc.usage.o, totalTokens: sc.usage.i + sc.usage.o + (sc.usage.x ?? 0) })) bad('speech.usage', `usage ${JSON.stringify(u.value)}`)
    }
    if (c.state !== 'open' && q.body?.state === 'open') bad('speech.leak', `the response is still held although the audio stream is ${c.state}`)
    return out
  },
  nontrivial: busyRun,
}
void faultTerminal
