// streamTranscription: text, events and the final text agree, failures reach all of them.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { Prng } from '../prng.mjs'
import { genCons } from '../source.mjs'
import { completeEvents, genWire, wirePlan } from '../sse.mjs'
import { genBodyWire, genUnaryFault, unaryPlan, wrongFailure } from '../unary.mjs'
import { consume, deepEq, observe, show } from '../world.mjs'

const q = s => JSON.stringify(s)
const WORDS = ['Hello', ' world', ' é', '🙂', '中文', '', '\n', '"q"', ' a', '[DONE]', 'data: x']

export default {
  id: 'C21',
  rule: BUSY,
  runs: { quick: 40000, thorough: 8000000 },
  real: ['stream-transcription', 'shared-stream', 'shared', 'Node web streams / TextDecoder / EventSource parser / FormData'],
  stub: ['the provider and network (scripted)', 'the consumers (scripted)'],
  gen: (rng) => {
    const sc = {
      model: `stt-${rng.int(4)}`,
      deltas: Array.from({ length: rng.bool(0.01) ? 40 + rng.int(100) : rng.int(8) }, () => rng.pick(WORDS)),
      done: rng.bool(0.9),
      extra: rng.bool(0.2),
      wire: genWire(rng),
      bwire: genBodyWire(rng),
      opts: {},
      apiKey: rng.bool(0.6) ? 'sk-1' : undefined,
      headers: rng.bool(0.4) ? { 'x-tag': 't1' } : undefined,
      headersObject: rng.bool(0.3),
      named: rng.bool(0.5),
      fileName: rng.bool(0.5) ? 'a.wav' : undefined,
      cons: { text: genCons(rng), full: genCons(rng) },
      globalFetch: rng.bool(0.2),
      lateText: rng.bool(0.25),
      fault: null,
    }
    if (rng.bool(0.4)) sc.opts.language = rng.pick(['de', 'pt-BR', 'zh-Hant'])
    if (sc.fileName && rng.bool(0.3)) sc.fileName = rng.pick(['rec/take 1.wav', 'é.mp3', 'B.WAV'])
    // a model may well say the same thing twice
    if (rng.bool(0.06)) sc.deltas.splice(rng.int(sc.deltas.length + 1), 0, ...Array(2).fill('and over and over and over again, '))
    // what the provider calls the whole text may be a tidied copy
    if (rng.bool(0.1)) sc.tidy = rng.pick(['', 'Tidy.', ' '])
    if (rng.bool(0.4)) sc.opts.prompt = 'names é'
    if (rng.bool(0.3)) sc.opts.temperature = rng.pick(['0.2', '0'])
    if (rng.bool(0.4)) {
      sc.fault = rng.wpick([[3, () => genUnaryFault(rng, { json: false })], [3, () => ({ k: 'cut', frac: rng.float(), mode: rng.bool(0.7) ? 'error' : rng.bool() ? 'close' : 'hang' })], [2, () => ({ k: 'badjson', frac: rng.float(), data: rng.pick(['oops', '{"type":']) })], [2, () => ({ k: 'sseerror', frac: rng.float(), json: { error: { message: 'overloaded' } } })]])()
    }
    if (rng.bool(0.2)) sc.abort = rng.wpick([[1, { on: 'pre' }], [3, { on: 'chunk', nth: rng.int(8) }], [1, { on: 'req' }]])
    return sc
  },
  main: async (w, L, sc) => {
    const st = { errs: {}, reqs: [] }
    const mkErr = (m) => { const e = new TypeError(`sim ${m}`); st.errs[m] = e; return e }
    const events = sc.deltas.map(d => ({ json: { type: 'transcript.text.delta', delta: d }, t: d }))
    if (sc.extra) events.splice(events.length >> 1, 0, { json: { type: 'transcript.text.segment', text: 'zzz' } })
    if (sc.done) events.push({ json: { type: 'transcript.text.done', text: sc.tidy !== undefined ? `${sc.deltas.join('').trim()}${sc.tidy}` : sc.deltas.join(''), usage: { type: 'tokens' } } })
    st.events = events
    const f = sc.fault
    st.inStream = f && ['badjson', 'sseerror', 'cut'].includes(f.k)
    const handler = (req) => {
      st.reqs.push(req)
      let plan
      if (f && !st.inStream) plan = unaryPlan(new Uint8Array(), sc.bwire, f, mkErr)
      else {
        let list = events
        if (f && f.k !== 'cut') {
          st.at = Math.floor(f.frac * events.length)
          list = [...events.slice(0, st.at), f.k === 'badjson' ? { data: f.data } : { json: f.json }, ...events.slice(st.at)]
        }
        plan = wirePlan(list, sc.wire, Prng, f?.k === 'cut' ? f : null, mkErr('body'))
        if (f) plan.faultName = f.k === 'cut' ? `net.cut-${f.mode}` : `net.${f.k}`
      }
      if (plan.faultName) w.fault(plan.faultName)
      st.plan = plan
      return plan
    }
    let ac
    if (sc.abort) {
      ac = new AbortController()
      st.reason = new Error('user abort')
      const fire = () => { st.abortS = w.log('abort', {}); w.fault('abort'); ac.abort(st.reason) }
      if (sc.abort.on === 'pre') fire()
      else w.post('abort', 'abort', fire, () => sc.abort.on === 'req' ? st.reqs.length > 0 : (st.reqs[0]?.body?.delivered ?? -1) >= sc.abort.nth, true)
    }
    if (sc.globalFetch) w.globalHandler = handler
    st.file = sc.named ? new File([new Uint8Array([1, 2, 3])], 'own.wav', { type: 'audio/wav' }) : new Blob([new Uint8Array([1, 2, 3])], { type: 'audio/wav' })
    const options = { baseURL: 'https://x.test/v1/', model: sc.model, file: st.file, ...sc.opts, ...(sc.fileName ? { fileName: sc.fileName } : {}), ...(sc.globalFetch ? {} : { fetch: w.makeFetch(handler) }), ...(sc.headers ? { headers: sc.headersObject ? new Headers(sc.headers) : sc.headers } : {}), ...(sc.apiKey ? { apiKey: sc.apiKey } : {}), ...(ac ? { abortSignal: ac.signal } : {}) }
    let res
    try { res = L.xsai.streamTranscription(options) }
    catch (e) { st.threw = e; return st }
    st.cons = { text: consume(w, 'text', res.textStream, sc.cons.text), full: consume(w, 'full', res.fullStream, sc.cons.full) }
    // a caller may look at the text only after the streams are done
    if (sc.lateText && sc.cons.text.mode === 'read') {
      st.text = { state: 'pending' }
      w.post('user', 'reads the text', () => { st.text = observe(w, 'text promise', res.text) }, () => st.cons.text.state !== 'open', true)
    }
    else { st.text = observe(w, 'text promise', res.text) }
    w.onQuiescent.push(() => {
      const b = st.reqs[0]?.body
      const c = st.cons.text
      if (st.late || c.mode !== 'read' || c.state !== 'open' || !b || b.state !== 'open' || !st.plan.meta || (f && f.k !== 'cut') || st.abortS !== undefined) return
      const want = events.slice(0, completeEvents(st.plan.meta, b.delivered)).map(e => e.t ?? '').join('')
      if (c.items.join('').length < want.length) st.late = `shows ${q(c.items.join(''))} while ${q(want)} had arrived`
    })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg })
    if (st.threw) { bad('transcribe.threw', show(st.threw)); return out }
    for (const e of w.unhandled) bad('unhandled.rejection', show(e))
    const f = sc.fault
    const aborted = st.abortS !== undefined
    const r = st.reqs[0]
    if (st.reqs.length > 1) bad('transcribe.requests', `${st.reqs.length} requests were sent`)
    if (r) {
      if (r.url !== 'https://x.test/v1/audio/transcriptions' || r.method !== 'POST') bad('transcribe.request', `${r.method} ${r.url}`)
      const form = Object.fromEntries((r.form ?? []).map(([k, v]) => [k, v]))
      const want = { model: sc.model, stream: 'true', ...sc.opts }
      for (const k of Object.keys(want)) if (form[k] !== want[k]) bad('transcribe.request', `field ${k} is ${q(form[k])}, expected ${q(want[k])}`)
      for (const k of Object.keys(form)) if (k !== 'file' && !(k in want)) bad('transcribe.request', `unexpected field ${k}=${q(form[k])}`)
      if (!form.file || form.file.size !== 3 || form.file.name !== (sc.fileName ?? (sc.named ? 'own.wav' : 'blob'))) bad('transcribe.request', `file ${form.file?.name} ${form.file?.size}`)
      if (r.headers.authorization !== (sc.apiKey ? `Bearer ${sc.apiKey}` : undefined) || (sc.headers && r.headers['x-tag'] !== 't1')) bad('transcribe.request', `headers ${q(r.headers)}`)
      if (r.headers['content-type']) bad('transcribe.request', `a multipart body was sent as ${r.headers['content-type']}`)
    }
    if (st.late) bad('transcribe.prompt', st.late)
    const p = st.text
    const hang = !aborted && (f?.k === 'hang-headers' || (f?.k === 'cut' && f.mode === 'hang'))
    const n = f && !st.inStream ? 0 : f?.k === 'cut' ? st.plan?.meta.complete ?? 0 : f ? st.at ?? 0 : st.events.length
    const part = st.events.slice(0, n).filter(e => e.t !== undefined)
    const failure = f && !(f.k === 'cut' && f.mode !== 'error') && f.k !== 'hang-headers'
    if (hang) { if (p.state !== 'pending') bad('transcribe.early', `the text settled (${p.state}) while the response hangs`) }
    else if (p.state === 'pending') bad('transcribe.pending', 'the text never settles')
    else if (p.state === 'fulfilled') {
      if (failure) bad('transcribe.swallowed', `the text resolved despite ${q(f)}`)
      const want = part.map(e => e.t).join('')
      if (!(f?.k === 'cut' ? p.value.startsWith(want) : p.value === want)) bad('transcribe.text', `the text is ${q(p.value)}, expected ${q(want)}`)
    }
    else if (aborted && p.error === st.reason) { /* as asked */ }
    else if (!failure) bad('transcribe.spurious', `the text rejected with ${show(p.error)}`)
    else { const m = wrongFailure(f, p.error, st.errs, L); if (m) bad('transcribe.error', m) }
    for (const k of ['text', 'full']) {
      const c = st.cons[k]
      if (c.mode === 'ignore') continue
      const got = k === 'text' ? c.items : c.items.map(e => e.delta)
      const want = (f?.k === 'cut' ? st.events.filter(e => e.t !== undefined) : part).map(e => e.t)
      if (got.join('') !== want.slice(0, got.length).join('') || got.length > want.length) bad(`transcribe.${k}`, `${k} delivered ${q(got)}, the provider sent ${q(want)}`)
      if (k === 'full' && c.items.some((e, i) => !deepEq(e, { type: 'transcript.text.delta', delta: want[i] }))) bad('transcribe.full', `full delivered ${q(c.items)}`)
      if (c.state === 'closed') {
        if (p.state !== 'fulfilled') bad('transcribe.agree', `${k} ended normally, the text is ${p.state}`)
        else if (got.join('') !== p.value) bad('transcribe.agree', `${k} delivered ${q(got.join(''))}, the text is ${q(p.value)}`)
      }
      if (c.state === 'errored' && (p.state !== 'rejected' || p.error !== c.error)) bad('transcribe.agree', `${k} failed with ${show(c.error)}, the text is ${p.state} ${show(p.error)}`)
      if (c.state === 'open' && !hang && c.mode !== 'cancel') bad('transcribe.open', `${k} never ends`)
      if (c.state === 'cancelled' && c.cancelResult !== 'ok' && c.cancelResult !== p.error) bad('transcribe.cancel', show(c.cancelResult))
    }
    if (p.state !== 'pending' && r?.body?.state === 'open') bad('transcribe.leak', 'the response is still held after everything settled')
    return out
  },
  nontrivial: busyRun,
}
