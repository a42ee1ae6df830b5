// Several provider instances, each asked for many option objects, which are spread into
// real calls at scheduler-chosen moments while other objects are handed out and edited.
import { BUSY, busyRun } from './conv-prop.mjs'
import { genBodyWire, genUnaryFault, unaryPlan, wrongFailure } from './unary.mjs'
import { deepEq, observe, safeJson, show } from './world.mjs'

const enc = new TextEncoder()
const short = (x) => { const s = safeJson(x) ?? 'undefined'; return s.length > 240 ? `${s.slice(0, 240)}…` : s }
const OPS = { chat: ['generateText', 'generateText', 'streamText', 'tel.generateText'], embed: ['embed', 'embedMany'], speech: ['generateSpeech'], image: ['generateImage'], transcription: ['generateTranscription'], model: ['listModels', 'retrieveModel'] }
const PATH = { generateText: 'chat/completions', streamText: 'chat/completions', embed: 'embeddings', embedMany: 'embeddings', generateSpeech: 'audio/speech', generateImage: 'images/generations', generateTranscription: 'audio/transcriptions', listModels: 'models' }
const opName = op => op.replace('tel.', '')
const snake = s => s.replace(/[A-Z]/g, c => `_${c.toLowerCase()}`)
const snakeTop = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [snake(k), v]))

/** capabilities that exist on a provider of each kind (generated ones: whatever the object offers) */
const SPECIAL = {
  azure: ['chat', 'embed', 'speech', 'transcription', 'model'],
  player2: ['chat', 'speech'],
  workersai: ['chat', 'embed'],
  openrouter: ['chat', 'model'],
  anthropic: ['chat', 'model'],
  featherless: ['chat', 'model'],
  together: ['chat', 'embed', 'model'],
  openai: ['chat', 'embed', 'speech', 'image', 'transcription', 'model'],
  custom: ['chat', 'chat', 'embed', 'speech', 'image', 'transcription', 'model'],
}

export const genProviders = (rng, { kinds, shareP = 0.2, calls: [lo, hi], faultP = 0, sacP = 0.4, keyFaultP = 0.15 }) => {
  const n = rng.wpick([[3, 1], [3, 2], [2, 3]])
  const provs = Array.from({ length: n }, (_, i) => {
    const kind = rng.pick(kinds)
    const p = { kind, n: i, key: `sk-${i}`, base: rng.pick([`https://p${i}.test/v1/`, `https://p${i}.test/deep/v1`]), name: rng.u32() }
    if (kind === 'azure') { p.keyKind = rng.pick(['string', 'sync', 'async', 'async']); p.version = rng.bool(0.7) ? rng.pick(['2024-05-01-preview', '2025-01-01']) : undefined }
    if (kind === 'workersai') p.account = `acc-${i}`
    // composed by the caller from the exported building blocks: which offer call-time extras, and
    // in which groups they are merged; the provider merged first may be one in use elsewhere
    if (kind === 'custom') p.custom = { extra: Object.fromEntries(['chat', 'embed', 'speech', 'transcription', 'model'].map(k => [k, rng.bool(0.6)])), order: rng.shuffle(['chat', 'embed', 'image', 'speech', 'transcription', 'model']), onto: rng.pick(['fresh', 'openai', 'openai', 'custom']), split: 1 + rng.int(5), headers: rng.bool(0.3) }
    return p
  })
  const calls = []
  const m = lo + rng.int(hi - lo + 1)
  for (let i = 0; i < m; i++) {
    const p = rng.int(n)
    const kind = provs[p].kind
    const caps = SPECIAL[kind] ?? ['chat', 'chat', 'model', 'embed', 'image', 'speech', 'transcription']
    const cap = rng.pick(caps)
    const op = rng.pick(OPS[cap])
    const c = { i, p, cap, op, late: rng.bool(0.6), getLate: rng.bool(0.4), wire: genBodyWire(rng), fault: rng.bool(faultP) ? genUnaryFault(rng, { json: op !== 'streamText' && !(op === 'generateSpeech' && kind !== 'player2') }) : null }
    if (rng.bool(sacP)) c.sac = { same: rng.bool(0.6), edits: rng.shuffle(['apiKey', 'model', 'baseURL', 'headers', 'fetch', 'extra', 'delete']).slice(0, 1 + rng.int(3)), extra: rng.bool(0.5), when: rng.pick(['get', 'use', 'end']) }
    if (rng.bool(0.5)) c.extraHeaders = true
    if (cap === 'chat' && (kind === 'openrouter' || kind === 'anthropic')) c.extra = genExtra(rng, kind, i)
    if (kind === 'custom' && provs[p].custom.extra[cap] && rng.bool(0.75)) c.extra = cap === 'model' ? { headers: { 'x-extra': `e${i}` } } : cap === 'transcription' ? { language: `l${i}` } : { user: `u${i}` }
    if (op === 'generateText' || op === 'streamText' || op === 'tel.generateText') c.steps = rng.wpick([[3, 1], [2, 2], [1, 3]])
    if (c.fault) c.faultAt = c.steps > 1 ? 1 + rng.int(c.steps) : 1
    if (op === 'generateSpeech') { c.len = 1 + rng.int(40); c.speed = rng.bool(0.4) ? rng.pick([0.5, 2]) : undefined; c.format = rng.bool(0.4) ? 'wav' : undefined; if (rng.bool(0.3)) c.instructions = `calm ${i}`; if (kind === 'player2' && rng.bool(0.08)) c.badBase64 = true }
    if (op === 'listModels') c.models = Array.from({ length: rng.int(4) }, (_, k) => ({ id: `m${i}.${k}`, object: 'model', created: k, owned_by: 'x' }))
    if (kind === 'azure' && provs[p].keyKind !== 'string' && rng.bool(keyFaultP)) c.keyFault = 1 + rng.int(c.steps ?? 1)
    // a caller that wraps the fetch it was handed, passing on the headers in another form
    if (kind === 'azure' && rng.bool(0.35)) c.wrapFetch = rng.pick(['array', 'Headers', 'object', 'none'])
    if (rng.bool(0.12)) c.abort = rng.wpick([[2, { on: 'req', nth: 1 }], [2, { on: 'key' }], [1, { on: 'chunk', nth: rng.int(3) }]])
    calls.push(c)
  }
  // a model list names nobody: at most one per instance, so that its request can be told apart
  const seen = new Set()
  for (const c of calls) {
    if (c.op !== 'listModels') continue
    if (seen.has(c.p)) { c.op = 'retrieveModel'; delete c.models }
    else seen.add(c.p)
  }
  return { provs, calls }
}
const genExtra = (rng, kind, i) => {
  if (rng.bool(0.25)) return null
  if (kind === 'anthropic') return { thinking: { budget_tokens: 1000 + i, type: 'enabled' } }
  const x = {}
  if (rng.bool(0.5)) x.models = [`alt-${i}`, 'shared/alt']
  if (rng.bool(0.5)) { x.provider = {}; for (const [k, v] of [['allowFallbacks', false], ['dataCollection', 'deny'], ['order', [`O${i}`]], ['requireParameters', true], ['sort', 'price']]) if (rng.bool(0.5)) x.provider[k] = v }
  if (rng.bool(0.5)) x.transforms = rng.pick([[], ['middle-out']])
  if (rng.bool(0.6)) x.extraHeaders = { kind: rng.pick(['object', 'Headers']), h: { 'HTTP-Referer': `https://app${i}.test`, ...(rng.bool(0.5) ? { 'X-Title': `app ${i}` } : {}) } }
  return x
}

const libExtra = (x) => x == null ? undefined : x.extraHeaders ? { ...x, extraHeaders: x.extraHeaders.kind === 'Headers' ? new Headers(x.extraHeaders.h) : { ...x.extraHeaders.h } } : JSON.parse(JSON.stringify(x))
const rewrap = (init, kind, i) => {
  const { headers, ...rest } = init
  const h = { ...(headers instanceof Headers ? Object.fromEntries(headers) : Array.isArray(headers) ? Object.fromEntries(headers) : headers), 'x-wrapped': `w${i}` }
  // without headers at all, only what the provider's own fetch adds is sent
  return kind === 'none' ? rest : { ...rest, headers: kind === 'array' ? Object.entries(h) : kind === 'Headers' ? new Headers(h) : h }
}
const bytesOf = (n, seed) => Uint8Array.from({ length: n }, (_, i) => (seed * 37 + i * 11 + 1) & 255)

export const runProviders = async (w, L, sc) => {
  const st = { calls: sc.calls.map(() => ({ reqs: [], errs: {}, keys: [] })), provs: [], stray: [], keyCalls: 0, keyLog: [] }
  const generated = Object.keys(L.providers).filter(k => typeof L.providers[k] === 'function' && !['createOpenAI', 'createAnthropic', 'createFeatherless', 'createOpenRouter', 'createTogetherAI', 'merge'].includes(k) && k.startsWith('create')).sort()
  for (const p of sc.provs) {
    const s = { issued: new Map() }
    st.provs.push(s)
    s.base = p.base
    switch (p.kind) {
      case 'azure': {
        s.base = `https://res${p.n}.services.ai.azure.com/models/`
        const issue = () => {
          const t = `tok-${p.n}-${s.issued.size + 1}`
          s.issued.set(t, { s: w.log('token', { t }), used: 0 })
          return t
        }
        const keyFn = p.keyKind === 'sync'
          ? () => { const f = takeKeyFault(w, st, sc, p.n); if (f) throw f; return issue() }
          : async () => {
            st.keyCalls++
            const f = takeKeyFault(w, st, sc, p.n)
            await w.later('token', `token ${p.n}`)
            if (f) throw f
            return issue()
          }
        s.provider = await L.specialProviders.createAzure({ apiKey: p.keyKind === 'string' ? p.key : keyFn, apiVersion: p.version, resourceName: `res${p.n}` })
        break
      }
      case 'player2': s.provider = L.specialProviders.createPlayer2(p.base, p.key); break
      case 'workersai': s.base = `https://api.cloudflare.com/client/v4/accounts/${p.account}/ai/v1/`; s.provider = L.specialProviders.createWorkersAI(p.key, p.account); break
      case 'openrouter': s.provider = L.providers.createOpenRouter(p.key, p.base); break
      case 'anthropic': s.provider = L.providers.createAnthropic(p.key, p.base); break
      case 'featherless': s.provider = L.providers.createFeatherless(p.key, p.base); break
      case 'together': s.provider = L.providers.createTogetherAI(p.key, p.base); break
      case 'openai': s.provider = L.providers.createOpenAI(p.key, p.base); break
      case 'custom': {
        const U = L.providerUtils
        const opts = s.opts = { apiKey: p.key, baseURL: p.base, ...(p.custom.headers ? { headers: { 'x-own': p.key } } : {}) }
        s.optsJ = JSON.stringify(opts)
        const up = k => k[0].toUpperCase() + k.slice(1)
        const parts = p.custom.order.map(k => U[`create${up(k)}Provider${p.custom.extra[k] ? 'WithExtraOptions' : ''}`](opts))
        const other = p.custom.onto === 'openai' ? L.providers.createOpenAI('sk-other', 'https://other.test/v1/') : p.custom.onto === 'custom' ? U.createChatProvider({ apiKey: 'sk-other', baseURL: 'https://other.test/v1/' }) : undefined
        s.other = other
        s.provider = p.custom.split < parts.length ? U.merge(...(other ? [other] : []), U.merge(...parts.slice(0, p.custom.split)), ...parts.slice(p.custom.split)) : U.merge(...(other ? [other] : []), ...parts)
        break
      }
      default: s.name = generated[p.name % generated.length]; s.provider = L.providers[s.name](p.key, p.base)
    }
  }
  const attribute = (req) => {
    const byModel = m => /^m-(\d+)$/.exec(m ?? '')?.[1]
    const form = req.form ? Object.fromEntries(req.form) : undefined
    let id = byModel(req.json?.model ?? form?.model) ?? /\/models\/m-(\d+)(?:\?|$)/.exec(req.url)?.[1]
    if (id === undefined && /\/models(?:\?|$)/.test(req.url)) {
      const host = new URL(req.url).host
      const i = sc.calls.findIndex(c => c.op === 'listModels' && (new URL(st.provs[c.p].base).host === host) && (sc.provs[c.p].kind !== 'workersai' || req.url.startsWith(st.provs[c.p].base)))
      if (i >= 0) id = i
    }
    return id === undefined ? -1 : Number(id)
  }
  w.globalHandler = (req) => {
    const i = attribute(req)
    if (i < 0 || !sc.calls[i]) { st.stray.push(req); return { reject: new TypeError('sim: nobody is there') } }
    const c = sc.calls[i]
    const s = st.calls[i]
    s.reqs.push(req)
    const nth = s.reqs.length
    const mkErr = (m) => { const e = new TypeError(`sim ${m} ${i}.${nth}`); s.errs[m] = e; return e }
    const js = x => enc.encode(JSON.stringify(x))
    const kind = sc.provs[c.p].kind
    const wrapless = kind === 'featherless' || kind === 'together'
    let body
    let type = 'application/json'
    const last = nth >= (c.steps ?? 1)
    switch (opName(c.op)) {
      case 'generateText': body = js({ id: 'r', object: 'chat.completion', created: 1, model: `m-${i}`, choices: [{ index: 0, finish_reason: last ? 'stop' : 'tool_calls', message: { role: 'assistant', content: last ? `answer ${i}` : '', ...(last ? {} : { tool_calls: [{ id: `t${nth}`, type: 'function', function: { name: 'ping', arguments: '{}' } }] }) } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }); break
      case 'streamText': {
        type = 'text/event-stream'
        const chunk = (delta, fr = null) => `data: ${JSON.stringify({ id: 'r', object: 'chat.completion.chunk', created: 1, model: 'x', choices: [{ index: 0, delta, finish_reason: fr }] })}\n\n`
        body = enc.encode(last ? `${chunk({ content: 'ans' })}${chunk({ content: `wer ${i}` })}${chunk({}, 'stop')}data: [DONE]\n\n` : `${chunk({ tool_calls: [{ index: 0, id: `t${nth}`, type: 'function', function: { name: 'ping', arguments: '{}' } }] })}${chunk({}, 'tool_calls')}data: [DONE]\n\n`)
        break
      }
      case 'embed': case 'embedMany': body = js({ data: [{ embedding: [i, 0.5], index: 0 }], usage: { prompt_tokens: i, total_tokens: i } }); break
      case 'generateSpeech': body = kind === 'player2' ? js({ data: c.badBase64 ? '*not base64*' : Buffer.from(bytesOf(c.len, i)).toString('base64') }) : bytesOf(c.len, i); break
      case 'generateImage': body = js({ created: 1, data: [{ b64_json: `iVBORw0K${i}AAA`.padEnd(12, 'A') }] }); break
      case 'generateTranscription': body = js({ text: `heard ${i}` }); break
      case 'listModels': body = js(wrapless ? c.models : { object: 'list', data: c.models }); break
      case 'retrieveModel': body = js({ id: `m-${i}`, object: 'model', created: 5, owned_by: `o${i}` }); break
    }
    const fault = c.fault && nth === c.faultAt ? c.fault : null
    const plan = unaryPlan(body, c.wire, fault, mkErr, type === 'application/json' ? undefined : type)
    if (plan.faultName) w.fault(plan.faultName)
    if (c.badBase64) w.fault('player2.bad-base64')
    return plan
  }
  const ask = (c, sacModel, extra) => {
    const prov = st.provs[c.p].provider
    const f = prov[c.cap]
    if (typeof f !== 'function') return undefined
    return c.cap === 'model' ? f(extra) : f(sacModel, extra)
  }
  const edit = (c, o) => {
    w.fault('holder.edits-options')
    for (const e of c.sac.edits) {
      switch (e) {
        case 'apiKey': o.apiKey = 'stolen'; break
        case 'model': o.model = 'stolen'; break
        case 'baseURL': o.baseURL = 'https://stolen.test/'; break
        case 'headers': o.headers = { 'x-stolen': '1', 'authorization': 'stolen' }; break
        case 'fetch': o.fetch = async () => { st.stolenFetch = true; throw new Error('stolen fetch') }; break
        case 'extra': o.temperature = 0.123; o.stolen = true; break
        case 'delete': delete o.apiKey; delete o.baseURL; break
      }
    }
  }
  const sac = (c) => {
    const kind = sc.provs[c.p].kind
    const c2 = c.sac.same ? c : { ...c, cap: 'chat' }
    const x = c.sac.extra && kind === 'openrouter' && c2.cap === 'chat' ? { models: ['stolen'], transforms: ['stolen'], provider: { order: ['stolen'] }, extraHeaders: { 'x-stolen': '1' } } : c.sac.extra && kind === 'anthropic' && c2.cap === 'chat' ? { thinking: { budget_tokens: 1, type: 'enabled' } } : c.sac.extra && kind === 'custom' ? { user: 'stolen', language: 'stolen', headers: { 'x-stolen': '1' } } : undefined
    const o = ask(c2, 'stolen', x)
    if (o) edit(c, o)
  }
  const held = []
  await Promise.all(sc.calls.map(async (c, i) => {
    const s = st.calls[i]
    const kind = sc.provs[c.p].kind
    const turn = async l => w.later('user', `${l} ${i}`)
    try {
      if (c.getLate) await turn('get')
      const x = libExtra(c.extra)
      const o = ask(c, `m-${i}`, x)
      if (o === undefined) { s.skipped = true; return }
      const fetchOf = o.fetch
      s.snapshot = safeJson({ ...o, headers: o.headers instanceof Headers ? Object.fromEntries(o.headers) : o.headers })
      s.object = o
      s.objectFetch = fetchOf
      if (c.sac?.when === 'get') sac(c)
      if (c.late) await turn('use')
      if (c.sac?.when === 'use') sac(c)
      const ac = c.abort ? new AbortController() : undefined
      if (ac) {
        s.reason = new Error(`abort ${i}`)
        w.post('abort', `abort ${i}`, () => { s.abortS = w.log('abort', { i }); s.abortReqs = s.reqs.length; w.fault('abort'); ac.abort(s.reason) }, () => s.started && (c.abort.on === 'key' ? st.keyCalls > 0 || s.reqs.length > 0 : c.abort.on === 'req' ? s.reqs.length >= 1 : (s.reqs[0]?.body?.delivered ?? -1) >= c.abort.nth), true)
      }
      const own = c.extraHeaders ? { headers: { ...(o.headers instanceof Headers ? Object.fromEntries(o.headers) : o.headers), [`x-call-${i}`]: 'mine' } } : {}
      const base = { ...o, ...own, ...(ac ? { abortSignal: ac.signal } : {}), ...(c.wrapFetch && fetchOf ? { fetch: (u, init) => fetchOf(u, rewrap(init, c.wrapFetch, i)) } : {}) }
      const lib = c.op.startsWith('tel.') ? L.telemetry : L.xsai
      const tools = c.steps > 1 ? { tools: [{ type: 'function', function: { name: 'ping', parameters: { type: 'object', properties: {} } }, execute: async () => { await w.later('tool', `tool ${i}`); return 'pong' } }], stopWhen: L.xsai.stepCountAtLeast(c.steps) } : {}
      const args = {
        generateText: { messages: [{ role: 'user', content: `hi ${i}` }], ...tools },
        streamText: { messages: [{ role: 'user', content: `hi ${i}` }], ...tools },
        embed: { input: `in ${i}` },
        embedMany: { input: [`in ${i}`] },
        generateSpeech: { input: `say ${i}`, voice: `v${i}`, ...(c.speed ? { speed: c.speed } : {}), ...(c.format ? { responseFormat: c.format } : {}), ...(c.instructions ? { instructions: c.instructions } : {}) },
        generateImage: { prompt: `draw ${i}` },
        generateTranscription: { file: new Blob([new Uint8Array([i, 2])]), fileName: 'a.wav' },
        listModels: {},
        retrieveModel: { model: `m-${i}` },
      }[opName(c.op)]
      s.started = true
      if (c.op === 'streamText') {
        const r = lib.streamText({ ...base, ...args })
        for (const k of ['steps', 'messages', 'usage', 'totalUsage', 'reasoningText']) r[k]?.catch?.(() => {})
        let text = ''
        s.r = observe(w, `call ${i}`, (async () => {
          const rd = r.textStream.getReader()
          for (;;) { const x = await rd.read(); if (x.done) break; text += x.value }
          await r.steps
          return text
        })())
      }
      else {
        s.r = observe(w, `call ${i}`, Promise.resolve(lib[opName(c.op)]({ ...base, ...args })))
      }
      held.push([i, o])
    }
    catch (e) { s.threw = e }
  }))
  st.finish = () => {
    for (const c of sc.calls) if (c.sac?.when === 'end') try { sac(c) } catch (e) { st.sacError = e }
    for (const [i, o] of held) {
      const s = st.calls[i]
      s.after = safeJson({ ...o, headers: o.headers instanceof Headers ? Object.fromEntries(o.headers) : o.headers })
      s.fetchAfter = o.fetch
    }
    // whatever was handed out or edited before, a new object is the provider's own
    sc.calls.forEach((c, i) => {
      const s = st.calls[i]
      if (s.skipped || s.threw) return
      const o = ask(c, `m-${i}`, libExtra(c.extra))
      s.fresh = safeJson({ ...o, headers: o.headers instanceof Headers ? Object.fromEntries(o.headers) : o.headers })
      s.freshFetch = o.fetch
      s.freshSame = o === s.object
    })
  }
  return st
}
const takeKeyFault = (w, st, sc, p) => {
  const prov = st.provs[p]
  prov.asked = (prov.asked ?? 0) + 1
  const want = sc.calls.find(c => c.p === p && c.keyFault)
  if (!want || prov.keyFaultDone || prov.asked !== want.keyFault) return null
  prov.keyFaultDone = true
  w.fault('token.fetch-fails')
  return prov.keyError = new Error(`no token ${p}`)
}

export const judgeProviders = (w, L, sc, st) => {
  const out = []
  const bad0 = (rule, msg) => out.push({ rule, msg })
  try { st.finish() }
  catch (e) { bad0('prov.threw', `asking for options again: ${show(e)}`) }
  for (const r of st.stray) bad0('prov.stray', `a request for ${r.url} (model ${r.json?.model}) belongs to no call`)
  if (st.stolenFetch) bad0('prov.isolation', 'a fetch set on another options object was used')
  st.provs.forEach((s, k) => {
    if (s.opts && JSON.stringify(s.opts) !== s.optsJ) bad0('prov.isolation', `provider ${k}: the options it was created from changed to ${JSON.stringify(s.opts)}`)
    if (!s.other) return
    const got = s.other.chat('z')
    if (got.apiKey !== 'sk-other' || got.baseURL !== 'https://other.test/v1/' || got.model !== 'z') bad0('prov.isolation', `provider ${k}: a provider merged into it now hands out ${safeJson(got)}`)
  })
  const keyVictims = new Map()
  st.calls.forEach((s, i) => {
    const c = sc.calls[i]
    const p = sc.provs[c.p]
    const ps = st.provs[c.p]
    const op = opName(c.op)
    const bad = (rule, msg) => out.push({ rule, msg: `call ${i} (${p.kind}${ps.name ? ` ${ps.name}` : ''} ${c.cap} → ${c.op}): ${msg}` })
    if (s.skipped) { if (SPECIAL[p.kind]) bad('prov.capability', 'the provider no longer offers this'); return }
    if (s.threw) { bad('prov.threw', show(s.threw)); return }
    if (s.after !== undefined && (s.after !== s.snapshot || s.fetchAfter !== s.objectFetch)) bad('prov.isolation', `the options object handed out changed from ${s.snapshot} to ${s.after}`)
    if (s.fresh !== undefined && s.fresh !== s.snapshot) bad('prov.isolation', `asking again gives ${s.fresh} instead of ${s.snapshot}`)
    if (s.freshSame) bad('prov.isolation', 'two calls share one options object')
    const own = JSON.parse(s.snapshot)
    if (c.cap !== 'model' && own.model !== `m-${i}`) bad('prov.model', `options name model ${own.model}`)
    // ---- every request ----
    const want = new URL(PATH[op] ?? `models/m-${i}`, ps.base.endsWith('/') ? ps.base : `${ps.base}/`)
    if (p.kind === 'player2' && op === 'generateSpeech') want.pathname = want.pathname.replace(/audio\/speech$/, 'tts/speak')
    if (p.version) want.searchParams.set('api-version', p.version)
    s.reqs.forEach((q, k) => {
      const at = s.reqs.length > 1 ? `request ${k + 1}: ` : ''
      if (q.url !== want.toString()) bad('prov.url', `${at}${q.url}, expected ${want}`)
      if (q.method !== (c.cap === 'model' ? 'GET' : 'POST')) bad('prov.url', `${at}method ${q.method}`)
      const h = q.headers
      if (p.kind === 'azure') {
        if (p.keyKind === 'string') {
          if (h.authorization !== `Bearer ${p.key}` || h['api-key'] !== (c.wrapFetch === 'none' ? undefined : p.key)) bad('prov.auth', `${at}authorization ${h.authorization}, api-key ${h['api-key']}`)
        }
        else {
          const t = ps.issued.get(/^Bearer (.*)$/.exec(h.authorization ?? '')?.[1])
          if (!t) bad('prov.auth', `${at}authorization ${h.authorization} was never issued by the token function of this provider`)
          else if (t.used++ > 0) bad('prov.auth', `${at}token ${h.authorization} was reused; the token function is to be asked for every request`)
          if (h['api-key'] !== undefined) bad('prov.auth', `${at}api-key ${h['api-key']}`)
        }
      }
      else if (p.kind === 'player2') {
        if (h['player2-game-key'] !== p.key || h.authorization !== undefined) bad('prov.auth', `${at}game key ${h['player2-game-key']}, authorization ${h.authorization}`)
      }
      else if (h.authorization !== `Bearer ${p.key}`) bad('prov.auth', `${at}authorization ${h.authorization}, expected Bearer ${p.key}`)
      for (const name of Object.keys(h)) if (name === 'x-stolen' || (/^x-call-/.test(name) && name !== `x-call-${i}`) || (p.kind !== 'player2' && name === 'player2-game-key') || (p.kind !== 'azure' && name === 'api-key')) bad('prov.isolation', `${at}header ${name} belongs to another call`)
      if (h['x-wrapped'] !== (c.wrapFetch && c.wrapFetch !== 'none' ? `w${i}` : undefined)) bad('prov.headers', `${at}the header the caller's fetch added is ${h['x-wrapped']}`)
      if (c.extraHeaders && c.wrapFetch !== 'none' && h[`x-call-${i}`] !== 'mine') bad('prov.headers', `${at}the caller's own header is lost`)
      const eh = c.extra?.extraHeaders?.h ?? {}
      for (const [name, key] of [['HTTP-Referer', 'http-referer'], ['X-Title', 'x-title']]) if (h[key] !== eh[name]) bad('prov.extra', `${at}header ${name} is ${h[key]}, expected ${eh[name]}`)
      if (h['x-extra'] !== c.extra?.headers?.['x-extra'] || (h['x-own'] !== (p.custom?.headers && !c.extra?.headers ? p.key : undefined))) bad('prov.extra', `${at}headers x-extra ${h['x-extra']}, x-own ${h['x-own']}`)
      if (c.abort && s.abortS !== undefined && q.s > s.abortS) bad('prov.abort', `${at}sent after the abort`)
      // ---- body ----
      if (c.cap === 'model') { if (q.rawBody !== undefined && q.rawBody !== null) bad('prov.body', `${at}a GET request carries a body`); return }
      if (op === 'generateTranscription') {
        const form = Object.fromEntries(q.form ?? [])
        if (form.model !== `m-${i}` || form.language !== c.extra?.language) bad('prov.body', `${at}form ${short({ ...form, file: undefined })}`)
        return
      }
      const b = q.json ?? {}
      const x = c.extra ?? {}
      const extras = { models: x.models, provider: x.provider ? snakeTop(x.provider) : undefined, transforms: x.transforms, thinking: x.thinking }
      let exp
      if (c.cap === 'chat') exp = { ...extras, model: `m-${i}` }
      else if (op === 'embed') exp = { model: `m-${i}`, input: `in ${i}` }
      else if (op === 'embedMany') exp = { model: `m-${i}`, input: [`in ${i}`] }
      else if (op === 'generateImage') exp = { model: `m-${i}`, prompt: `draw ${i}` }
      else if (p.kind === 'player2') exp = { model: `m-${i}`, audio_format: c.format, play_in_app: false, speed: c.speed ?? 1, text: `say ${i}`, voice_ids: [`v${i}`], instructions: c.instructions }
      else exp = { model: `m-${i}`, input: `say ${i}`, voice: `v${i}`, response_format: c.format, speed: c.speed, instructions: c.instructions }
      const got = { ...b }
      if (c.cap === 'chat') {
        if (!deepEq(got.messages?.[0], { role: 'user', content: `hi ${i}` })) bad('prov.body', `${at}messages ${short(got.messages)}`)
        for (const k2 of ['messages', 'stream', 'tools', 'stream_options', 'tool_choice']) delete got[k2]
      }
      if (x.user !== undefined) exp.user = x.user
      if (!deepEq(got, exp)) bad('prov.body', `${at}sent ${short(got)}, expected ${short(exp)}`)
    })
    // ---- outcome ----
    const r = s.r
    const full = c.steps ?? 1
    const aborted = s.abortS !== undefined
    const keyFailed = ps.keyError !== undefined && r.state === 'rejected' && r.error === ps.keyError
    if (keyFailed) {
      keyVictims.set(c.p, (keyVictims.get(c.p) ?? 0) + 1)
      return
    }
    if (r.state === 'pending') {
      if (aborted || !(c.fault?.k === 'hang-headers')) bad('prov.pending', 'never settles')
      return
    }
    if (aborted && r.state === 'rejected' && r.error === s.reason) return
    const readsItself = (p.kind === 'player2' && op === 'generateSpeech') || ((p.kind === 'featherless' || p.kind === 'together') && c.cap === 'model')
    if (c.fault?.k === 'nonstream' && readsItself) return // not a Response: nothing to require
    if (c.fault && s.reqs.length >= c.faultAt) {
      if (r.state === 'fulfilled') {
        bad('prov.swallowed', `resolved with ${short(r.value)} despite ${short(c.fault)}`)
        return
      }
      // where the provider reads the body itself, a body that is no JSON is an untyped error
      const looser = readsItself && (c.fault.k === 'null' || c.fault.k === 'badjson' || c.fault.k === 'cut')
      if (looser ? !(r.error instanceof Error) : wrongFailure(c.fault, r.error, s.errs, L)) bad('prov.error', `${short(c.fault)} surfaces as ${show(r.error)}`)
      return
    }
    if (c.badBase64) {
      if (r.state === 'fulfilled') bad('prov.swallowed', 'resolved although the audio cannot be decoded')
      return
    }
    if (r.state === 'rejected') { bad(aborted ? 'prov.abort-reason' : 'prov.spurious', show(r.error)); return }
    if (aborted && s.reqs.length < full) return // the loop ended early, between two requests
    if (s.reqs.length !== full) bad('prov.requests', `${s.reqs.length} requests, expected ${full}`)
    const v = r.value
    const ok = {
      generateText: () => v.text === `answer ${i}`,
      streamText: () => v === `answer ${i}`,
      embed: () => deepEq(v.embedding, [i, 0.5]),
      embedMany: () => deepEq(v.embeddings, [[i, 0.5]]),
      generateSpeech: () => v instanceof ArrayBuffer && deepEq(new Uint8Array(v), bytesOf(c.len, i)),
      generateImage: () => v.image?.base64?.includes(`iVBORw0K${i}AAA`),
      generateTranscription: () => v.text === `heard ${i}`,
      listModels: () => deepEq(v, c.models),
      retrieveModel: () => v?.id === `m-${i}` && v.owned_by === `o${i}`,
    }[op]()
    if (!ok) bad('prov.result', `resolved with ${short(v)}`)
  })
  sc.provs.forEach((p, k) => {
    const ps = st.provs[k]
    if (ps.keyError === undefined) return
    const n = keyVictims.get(k) ?? 0
    const someAborted = st.calls.some((s, i) => sc.calls[i].p === k && s.abortS !== undefined)
    if (n === 0 && !someAborted) bad0('prov.token', `provider ${k}: the token function failed, yet no call failed with its error`)
    if (n > 1) bad0('prov.token', `provider ${k}: one failed token fetch failed ${n} calls`)
  })
  for (const e of w.unhandled) bad0('unhandled.rejection', show(e))
  return out
}
export { BUSY, busyRun }
