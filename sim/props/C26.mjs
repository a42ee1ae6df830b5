// One-shot calls (embeddings, images, speech, transcription, models), several at a time.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { genBodyWire, genExtras, genUnaryFault, unaryPlan, wireNames, wrongFailure } from '../unary.mjs'
import { deepEq, observe, safeJson, show } from '../world.mjs'

const enc = new TextEncoder()
const short = (x) => { const s = safeJson(x) ?? 'undefined'; return s.length > 240 ? `${s.slice(0, 240)}…` : s }
const ALL_OPS = ['embed', 'embedMany', 'generateImage', 'generateSpeech', 'generateTranscription', 'listModels', 'retrieveModel', 'tel.embed', 'tel.embedMany']
const PNG = 'iVBORw0KGgoAAAANSUhEUg'
const MIME = [[PNG, 'image/png'], ['R0lGODlhAQABAAAAACw=', 'image/gif'], ['AAAAIGZ0eXBhdmlmAAAA', 'image/avif'], ['c29tZXRoaW5n', 'image/png'], ['UklGRiQAAABXRUJQVlA4IA==', 'image/webp'], ['/9j/4AAQSkZJRg==', 'image/jpg'], ['R0lGODdhAQABAAAALA==', 'image/gif'], ['/9j/2wBDAAMCAgICAgM=', 'image/jpg'], ['/9j/4QAYRXhpZgAA', 'image/jpg'], ['UklGRsA0AABXRUJQVlA4IA==', 'image/webp']]
const PATH = { 'embed': 'embeddings', 'embedMany': 'embeddings', 'tel.embed': 'embeddings', 'tel.embedMany': 'embeddings', 'generateImage': 'images/generations', 'generateSpeech': 'audio/speech', 'generateTranscription': 'audio/transcriptions', 'listModels': 'models' }
const isGet = op => op === 'listModels' || op === 'retrieveModel'
const bytesOf = (n, seed) => Uint8Array.from({ length: n }, (_, i) => (seed * 31 + i * 7) & 255)

export const make = (OPS = ALL_OPS) => ({
  id: 'C26',
  rule: BUSY,
  runs: { quick: 30000, thorough: 6000000 },
  real: ['embed', 'generate-image', 'generate-speech', 'generate-transcription', 'model', 'telemetry embed wrappers', 'shared (request helpers, response checks, errors)'],
  stub: ['the provider and network (scripted)', 'reading of blobs (delayed and failed by the simulator)'],
  assumptions: ['successful responses have the documented shape'],
  gen: (rng) => {
    const n = rng.wpick([[3, 1], [3, 2], [2, 4]])
    return {
      global: rng.bool(0.2),
      calls: Array.from({ length: n }, (_, i) => {
        const op = rng.pick(OPS)
        const c = { op, i, model: rng.pick(['m-1', 'org/m:2', 'text-embedding-3']), base: rng.pick(['https://x.test/v1/', 'https://x.test/v1', 'https://x.test/deep/er/v1']), baseURL: rng.bool(0.2), later: rng.bool(0.4), wire: genBodyWire(rng), apiKey: rng.bool(0.6) ? `sk-${i}` : undefined, headers: rng.bool(0.4) ? rng.pick([{ 'x-a': '1' }, { 'Authorization': 'Token own', 'x-a': 'b' }, { authorization: 'Token own' }, { 'content-type': 'application/json; charset=utf-8' }, { 'Content-Type': 'application/json; charset=utf-8', 'AUTHORIZATION': 'Token own' }]) : undefined, headersObject: rng.bool(0.3), opts: {}, fault: rng.bool(0.4) ? genUnaryFault(rng, { json: op !== 'generateSpeech' }) : null }
        if (op !== 'generateTranscription' && !isGet(op) && rng.bool(0.15)) c.extras = genExtras(rng)
        if (op.includes('embed')) {
          const m = op.endsWith('Many') ? rng.bool(0.06) ? 20 + rng.int(120) : rng.int(4) : 1
          c.input = op.endsWith('Many') ? Array.from({ length: m }, (_, k) => rng.bool(0.15) ? rng.pick(['same', '', ' same ']) : `text ${i}.${k} é`) : rng.bool(0.06) ? '' : `text ${i}`
          c.vectors = Array.from({ length: m }, () => Array.from({ length: 1 + rng.int(3) }, () => rng.int(100) / 8 - 3))
          c.usage = rng.bool(0.15) ? undefined : rng.bool(0.1) ? 0 : rng.int(90)
          if (rng.bool(0.2)) c.rest = 1 + rng.int(9)
          if (rng.bool(0.4)) c.opts.dimensions = 256
          if (op.startsWith('tel.') && rng.bool(0.4)) c.telemetry = rng.pick([{}, { attributes: { 'app.i': i } }])
        }
        if (op === 'generateImage') {
          c.images = Array.from({ length: 1 + rng.int(3) }, () => rng.wpick([[3, { kind: 'b64', m: rng.int(MIME.length) }], [3, { kind: 'url', type: rng.pick(['image/png', 'image/webp', 'image/jpeg', 'image/png;charset=binary']), len: rng.int(9), wire: genBodyWire(rng), fault: rng.bool(0.2) ? rng.pick([{ k: 'http', status: 404, body: 'gone', split: 0 }, { k: 'reject' }, { k: 'null' }, { k: 'cut', frac: 0.5, mode: 'error' }, { k: 'blob' }]) : null }], [0.3, { kind: 'none' }]]))
          if (rng.bool(0.4)) { c.opts.n = rng.bool(0.3) ? 1 + rng.int(4) : c.images.length; c.opts.responseFormat = 'url' }
        }
        // the lengths tell the images of all calls apart, for blobs that fail to read
        c.images?.forEach((im, k) => { if (im.kind === 'url') im.len += 10 * (4 * i + k) + (rng.bool(0.01) ? 300000 : 0) })
        if (op === 'generateSpeech') { c.len = rng.wpick([[1, 1], [3, 1 + rng.int(60)], [0.5, 100 + rng.int(6000)]]); if (rng.bool(0.5)) c.opts.responseFormat = 'wav' }
        if (op === 'generateTranscription') {
          c.format = rng.pick([undefined, 'json', 'verbose_json'])
          c.gran = c.format === 'verbose_json' ? rng.pick([undefined, 'segment', 'word']) : undefined
          for (const [k, v] of [['language', rng.pick(['de', 'pt-BR'])], ['prompt', 'p é'], ['temperature', '0']]) if (rng.bool(0.3)) c.opts[k] = v
          c.fileName = rng.bool(0.5) ? rng.pick(['a.wav', 'a.wav', 'rec/take 1.wav', 'é.MP3']) : undefined
        }
        if (op === 'listModels') c.models = Array.from({ length: rng.bool(0.06) ? 60 : rng.int(4) }, (_, k) => ({ id: `m${rng.bool(0.1) ? 0 : k}`, object: 'model', created: k, owned_by: 'x' }))
        if (rng.bool(0.2)) c.abort = rng.wpick([[1, { on: 'pre' }], [2, { on: 'req', nth: 1 }], [2, { on: 'chunk', nth: rng.int(4) }], [1, { on: 'req', nth: 2 }]])
        return c
      }),
    }
  },
  main: async (w, L, sc) => {
    const st = { calls: sc.calls.map(() => ({ reqs: [], errs: {} })) }
    const handlerFor = i => (req) => {
      const c = sc.calls[i]
      const s = st.calls[i]
      s.reqs.push(req)
      const mkErr = (m) => { const e = new TypeError(`sim ${m} ${i}.${s.reqs.length}`); s.errs[m] ??= e; (s.allErrs ??= []).push(e); return e }
      let plan
      const img = /\/img-(\d+)$/.exec(req.url)
      if (img) {
        const k = Number(img[1])
        const im = c.images[k]
        const f = im.fault?.k === 'blob' ? null : im.fault
        if (im.fault?.k === 'blob') { w.fault('blob.read-error'); s.blobFail = true }
        plan = unaryPlan(bytesOf(im.len + 2, k), im.wire, f, mkErr, im.type)
      }
      else {
        const js = x => enc.encode(JSON.stringify(x))
        const body = c.op.includes('embed')
          ? js({ object: 'list', model: c.model, data: c.vectors.map((v, index) => ({ object: 'embedding', index, embedding: v })), ...(c.usage === undefined ? {} : { usage: { prompt_tokens: c.usage, total_tokens: c.usage + (c.rest ?? 0) } }) })
          : c.op === 'generateImage'
            ? js({ created: 1, data: c.images.map((im, k) => im.kind === 'b64' ? { b64_json: MIME[im.m][0] } : im.kind === 'url' ? { url: `https://img.test/call-${i}/img-${k}`, revised_prompt: 'r' } : { revised_prompt: 'nothing' }) })
            : c.op === 'generateSpeech'
              ? bytesOf(c.len, i)
              : c.op === 'generateTranscription'
                ? js({ text: `heard ${i} é`, ...(c.format === 'verbose_json' ? { duration: 1.5, language: 'de', segments: [] } : {}) })
                : c.op === 'listModels' ? js({ object: 'list', data: c.models }) : js({ id: c.model, object: 'model', created: 5, owned_by: `o${i}` })
        plan = unaryPlan(body, c.wire, c.fault, mkErr)
      }
      if (plan.faultName) w.fault(plan.faultName)
      return plan
    }
    w.failBlob = (b) => {
      for (const [i, s] of st.calls.entries()) {
        const k = s.blobFail ? sc.calls[i].images?.findIndex(im => im.fault?.k === 'blob' && im.type === b.type && im.len + 2 === b.size) : -1
        if (k >= 0) { (s.unread ??= []).push(k); return new Error('sim: blob read failed') }
      }
    }
    if (sc.global) w.globalHandler = (req) => {
      const i = Number(req.headers['x-call'] ?? /call-(\d+)/.exec(req.url)?.[1])
      return handlerFor(i)(req)
    }
    await Promise.all(sc.calls.map(async (c, i) => {
      const s = st.calls[i]
      if (c.later) await w.later('start', `start ${i}`)
      let ac
      if (c.abort) {
        ac = new AbortController()
        s.reason = new Error(`abort ${i}`)
        const fire = () => { s.abortS = w.log('abort', { i }); s.abortReqs = s.reqs.length; w.fault('abort'); ac.abort(s.reason) }
        if (c.abort.on === 'pre') fire()
        else w.post('abort', `abort ${i}`, fire, () => c.abort.on === 'req' ? s.reqs.length >= c.abort.nth : (s.reqs[0]?.body?.delivered ?? -1) >= c.abort.nth, true)
      }
      const H = { ...c.headers, ...(sc.global ? { 'x-call': String(i) } : {}) }
      const headers = Object.keys(H).length ? (c.headersObject ? new Headers(H) : H) : undefined
      s.sentHeaders = H
      const base = { baseURL: c.baseURL ? new URL(c.base) : c.base, model: c.model, ...c.opts, ...structuredClone(c.extras ?? {}), ...(sc.global ? {} : { fetch: w.makeFetch(handlerFor(i)) }), ...(headers ? { headers } : {}), ...(c.apiKey ? { apiKey: c.apiKey } : {}), ...(ac ? { abortSignal: ac.signal } : {}) }
      const o = c.op.includes('embed')
        ? { ...base, input: c.input, ...(c.telemetry ? { telemetry: structuredClone(c.telemetry) } : {}) }
        : c.op === 'generateImage'
          ? { ...base, prompt: `draw ${i}` }
          : c.op === 'generateSpeech'
            ? { ...base, input: `say ${i}`, voice: 'nova' }
            : c.op === 'generateTranscription'
              ? { ...base, file: new Blob([new Uint8Array([i, 2])]), ...(c.fileName ? { fileName: c.fileName } : {}), ...(c.format ? { responseFormat: c.format } : {}), ...(c.gran ? { timestampGranularities: c.gran } : {}) }
              : base
      s.options = o
      s.json = safeJson({ ...o, abortSignal: 0, fetch: 0 })
      const lib = c.op.startsWith('tel.') ? L.telemetry : L.xsai
      try { s.r = observe(w, `call ${i}`, lib[c.op.replace('tel.', '')](o)) }
      catch (e) { s.threw = e }
    }))
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    st.calls.forEach((s, i) => {
      const c = sc.calls[i]
      const bad = (rule, msg) => out.push({ rule, msg: `call ${i} ${c.op}: ${msg}` })
      if (s.threw) { bad('unary.threw', show(s.threw)); return }
      if (safeJson({ ...s.options, abortSignal: 0, fetch: 0 }) !== s.json) bad('unary.options', 'the caller\'s options were modified')
      const main = s.reqs.filter(r => !/\/img-\d+$/.test(r.url))
      const imgs = s.reqs.filter(r => /\/img-\d+$/.test(r.url))
      const preAborted = c.abort?.on === 'pre'
      if (main.length !== (preAborted ? 0 : 1)) bad('unary.requests', `${main.length} requests were sent`)
      const q = main[0]
      if (q) {
        const path = PATH[c.op] ?? `models/${c.model}`
        const url = new URL(path, c.base.endsWith('/') ? c.base : `${c.base}/`).toString()
        if (q.url !== url || q.method !== (isGet(c.op) ? 'GET' : 'POST')) bad('unary.request', `${q.method} ${q.url}, expected ${url}`)
        const own = Object.fromEntries(Object.entries(s.sentHeaders).map(([k, v]) => [k.toLowerCase(), v]))
        if (q.headers.authorization !== (own.authorization ?? (c.apiKey ? `Bearer ${c.apiKey}` : undefined))) bad('unary.auth', `authorization ${q.headers.authorization}`)
        for (const [k, v] of Object.entries(own)) if (k !== 'authorization' && q.headers[k] !== v) bad('unary.headers', `header ${k} is ${q.headers[k]}`)
        if (c.op === 'generateTranscription') {
          const form = Object.fromEntries(q.form ?? [])
          const want = { model: c.model, response_format: c.format ?? 'json', ...(c.format === 'verbose_json' ? { 'timestamp_granularities[]': c.gran ?? 'segment' } : {}), ...c.opts }
          for (const k of new Set([...Object.keys(want), ...Object.keys(form)])) if (k !== 'file' && form[k] !== want[k]) bad('unary.body', `field ${k} is ${short(form[k])}, expected ${short(want[k])}`)
          if (form.file?.size !== 2 || form.file.name !== (c.fileName ?? 'blob')) bad('unary.body', `file ${form.file?.name}`)
        }
        else if (isGet(c.op)) { if (q.rawBody !== undefined) bad('unary.body', 'a GET request carries a body') }
        else {
          const want = { model: c.model, ...(c.op.includes('embed') ? { input: c.input } : c.op === 'generateImage' ? { prompt: `draw ${i}` } : { input: `say ${i}`, voice: 'nova' }), ...(c.opts.dimensions ? { dimensions: 256 } : {}), ...(c.opts.n ? { n: c.opts.n } : {}), ...(c.opts.responseFormat ? { response_format: c.opts.responseFormat } : {}), ...wireNames(c.extras ?? {}) }
          if (!deepEq(q.json, want)) bad('unary.body', `sent ${q.text}, expected ${short(want)}`)
          if (q.headers['content-type'] !== (own['content-type'] ?? 'application/json')) bad('unary.headers', `content-type ${q.headers['content-type']}`)
        }
      }
      const r = s.r
      if (r.state !== 'pending') for (const q of s.reqs) if (q.body?.state === 'open') bad('unary.leak', `the response for ${q.url} is still held after the call ended`)
      const aborted = s.abortS !== undefined
      const subs = c.op === 'generateImage' && !c.fault ? c.images : []
      const subFaults = subs.filter((im, k) => im.kind === 'none' || (im.fault && (im.fault.k !== 'blob' || s.unread?.includes(k))))
      if (r.state === 'pending') {
        const hang = c.fault?.k === 'hang-headers'
        if (aborted || !hang) bad('unary.pending', 'never settles')
        return
      }
      if (aborted && s.reqs.length > s.abortReqs) bad('unary.abort-request', 'a request was sent after the abort')
      if (aborted && r.state === 'rejected' && r.error === s.reason) return
      if (aborted && r.state === 'rejected' && r.s < s.abortS) { /* judged as an ordinary failure below */ }
      if (c.fault) {
        if (r.state === 'fulfilled') { bad('unary.swallowed', `resolved with ${short(r.value)} despite ${short(c.fault)}`); return }
        const m = wrongFailure(c.fault, r.error, s.errs, L)
        if (m) bad('unary.error', m)
        return
      }
      if (subFaults.length > 0) {
        if (r.state === 'fulfilled') { bad('unary.swallowed', `resolved with ${short(r.value)} although an image could not be loaded`); return }
        const e = r.error
        const ok = subFaults.some(im => im.kind === 'none' ? e instanceof Error : im.fault.k === 'blob' ? e instanceof Error : im.fault.k === 'reject' || im.fault.k === 'cut' ? s.allErrs?.includes(e) : !wrongFailure(im.fault, e, s.errs, L))
        if (!ok) bad('unary.error', `failed with ${show(e)}`)
        return
      }
      if (r.state === 'rejected') { if (!aborted) bad('unary.spurious', show(r.error)); else bad('unary.abort-reason', show(r.error)); return }
      let want
      let got = r.value
      if (c.op.endsWith('embed')) want = { embedding: c.vectors[0], input: c.input, usage: c.usage === undefined ? undefined : { prompt_tokens: c.usage, total_tokens: c.usage + (c.rest ?? 0) } }
      else if (c.op.endsWith('embedMany')) want = { embeddings: c.vectors, input: c.input, usage: c.usage === undefined ? undefined : { prompt_tokens: c.usage, total_tokens: c.usage + (c.rest ?? 0) } }
      else if (c.op === 'generateSpeech') { want = [...bytesOf(c.len, i)]; got = got instanceof ArrayBuffer ? [...new Uint8Array(got)] : got }
      else if (c.op === 'generateTranscription') want = { text: `heard ${i} é`, ...(c.format === 'verbose_json' ? { duration: 1.5, language: 'de', segments: [] } : {}) }
      else if (c.op === 'listModels') want = c.models
      else if (c.op === 'retrieveModel') want = { id: c.model, object: 'model', created: 5, owned_by: `o${i}` }
      else {
        const images = c.images.map((im, k) => im.kind === 'b64'
          ? { base64: `data:${MIME[im.m][1]};base64,${MIME[im.m][0]}`, mimeType: MIME[im.m][1] }
          : { base64: `data:${im.type};base64,${Buffer.from(bytesOf(im.len + 2, k)).toString('base64')}`, mimeType: im.type.split(';')[0] })
        want = { image: images[0], images }
      }
      // the registered name of image/jpg is image/jpeg
      const jpeg = x => c.op === 'generateImage' ? JSON.parse((safeJson(x) ?? 'null').replaceAll('image/jpg', 'image/jpeg')) : x
      if (!deepEq(jpeg(got), jpeg(want))) bad('unary.result', `resolved with ${short(got)}, expected ${short(want)}`)
      if (c.op === 'generateImage') {
        const urls = c.images.filter(im => im.kind === 'url').length
        if (imgs.length !== urls) bad('unary.requests', `${imgs.length} image downloads, expected ${urls}`)
        if (s.reason && imgs.some(x => !x.signal)) bad('unary.signal', 'an image is downloaded without the caller\'s signal')
      }
    })
    for (const e of w.unhandled) out.push({ rule: 'unhandled.rejection', msg: show(e) })
    return out
  },
  nontrivial: busyRun,
})

export default make()
