// Ready-made providers: the documented service, with the key of its own environment variable.
import { readFileSync } from 'node:fs'
import { BUSY, busyRun } from '../conv-prop.mjs'
import { genBodyWire, genUnaryFault, unaryPlan, wrongFailure } from '../unary.mjs'
import { deepEq, observe, safeJson, show } from '../world.mjs'

/** what the documentation comments of the pinned commit say of each ready-made provider */
const TABLE = JSON.parse(readFileSync(new URL('../providers-table.json', import.meta.url), 'utf8'))
const NAMES = Object.keys(TABLE)
const ENVS = [...new Set(Object.values(TABLE).flatMap(t => t.env))]
/** deprecated names that still stand for the creator */
const OLD_NAME = { novitaAi: 'createNovita', stepfun: 'createStepFun' }
const OWN_FETCH = ['featherless', 'togetherai']
const OPS = { chat: 'generateText', embed: 'embed', image: 'generateImage', speech: 'generateSpeech', transcription: 'generateTranscription', model: 'retrieveModel' }
const PATH = { chat: 'chat/completions', embed: 'embeddings', image: 'images/generations', speech: 'audio/speech', transcription: 'audio/transcriptions' }
const creatorOf = c => (c.old && OLD_NAME[c.p]) || TABLE[c.p].creator
const enc = new TextEncoder()
const q = x => JSON.stringify(x)
let compiled
let code

export default {
  id: 'C31',
  rule: BUSY,
  runs: { quick: 40000, thorough: 8000000 },
  real: ['providers (every ready-made instance and its creator with default address)', 'generate-text, embed, generate-image, generate-speech, generate-transcription, model', 'shared'],
  stub: ['process.env (one environment per run)', 'the provider services and network (scripted)'],
  assumptions: ['the documentation comment of an instance names its address and its variables; the table of them is taken from the pinned commit'],
  gen: (rng) => {
    const some = Array.from({ length: 1 + rng.int(3) }, () => rng.bool(0.15) ? rng.pick(['google', 'openai', 'novitaAi', 'stepfun', 'player2', 'anthropic', 'openrouter']) : rng.pick(NAMES))
    const env = {}
    for (const e of ENVS) if (rng.bool(0.7)) env[e] = rng.bool(0.05) ? '' : `key-of-${e}`
    const calls = Array.from({ length: 1 + rng.int(4) }, () => {
      const p = rng.pick(some)
      const caps = TABLE[p].caps.filter(c => !(c === 'model' && OWN_FETCH.includes(p)) && !(c === 'speech' && p === 'player2'))
      return { p, cap: rng.pick(caps), via: TABLE[p].creator && rng.bool(0.3) ? 'creator' : 'ready', old: rng.bool(0.3), late: rng.bool(0.5), wire: genBodyWire(rng), fault: rng.bool(0.15) ? genUnaryFault(rng) : null }
    })
    for (const c of calls) if (c.fault && (c.fault.k === 'hang-headers' || (c.cap === 'speech' && c.fault.k !== 'http' && c.fault.k !== 'reject'))) c.fault = null
    return { env, calls }
  },
  main: async (w, L, sc) => {
    if (code !== L.readyProviders) { code = L.readyProviders; compiled = new Function('process', code) }
    const st = { calls: sc.calls.map(() => ({ reqs: [], errs: {} })), stray: [] }
    const P = compiled({ env: { ...sc.env } })
    const all = { ...P.special, ...P.main }
    w.globalHandler = (req) => {
      const m = req.json?.model ?? req.form?.find(([k]) => k === 'model')?.[1] ?? /models\/(m-\d+)$/.exec(req.url)?.[1]
      const i = Number(/^m-(\d+)$/.exec(m ?? '')?.[1] ?? -1)
      const s = st.calls[i]
      if (!s) { st.stray.push(req); return { reject: new TypeError('nobody') } }
      s.reqs.push(req)
      const c = sc.calls[i]
      const usage = { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 }
      const body = c.cap === 'speech' ? Uint8Array.from([i, 1, 2]) : enc.encode(JSON.stringify({
        chat: { id: 'x', object: 'chat.completion', choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content: `answer ${i}` } }], usage },
        embed: { data: [{ embedding: [i, 1], index: 0 }], usage },
        image: { created: 1, data: [{ b64_json: 'iVBORw0KGgoAAAAN' }] },
        transcription: { text: `heard ${i}` },
        model: { id: `m-${i}`, object: 'model', created: i, owned_by: 'x' },
      }[c.cap]))
      const plan = unaryPlan(body, c.wire, c.fault, n => s.errs[n] = new TypeError(`sim ${n} ${i}`))
      if (plan.faultName) w.fault(plan.faultName)
      return plan
    }
    await Promise.all(sc.calls.map(async (c, i) => {
      const s = st.calls[i]
      if (c.late) await w.later('start', `start ${i}`)
      const t = TABLE[c.p]
      const args = {
        chat: { messages: [{ role: 'user', content: `hi ${i}` }] },
        embed: { input: `in ${i}` },
        image: { prompt: `draw ${i}` },
        speech: { input: `say ${i}`, voice: 'v' },
        transcription: { file: new Blob([new Uint8Array([i])]), fileName: 'a.wav' },
        model: { model: `m-${i}` },
      }[c.cap]
      try {
        const make = c.via === 'creator' ? { ...P.create, ...P.special }[creatorOf(c)] : undefined
        const inst = make ? make(`own-key-${i}`) : all[c.p]
        s.caps = Object.keys(inst)
        const o = c.cap === 'model' ? inst.model() : inst[c.cap](`m-${i}`)
        s.r = observe(w, `call ${i}`, Promise.resolve(L.xsai[OPS[c.cap]]({ ...o, ...args })))
      }
      catch (e) { s.threw = e }
    }))
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    for (const r of st.stray) out.push({ rule: 'ready.stray', msg: `a request to ${r.url} belongs to no call: ${r.text}` })
    st.calls.forEach((s, i) => {
      const c = sc.calls[i]
      const t = TABLE[c.p]
      const bad = (rule, msg) => out.push({ rule, msg: `call ${i} (${c.via === 'creator' ? creatorOf(c) : c.p}.${c.cap}): ${msg}` })
      if (s.threw) { bad('ready.threw', show(s.threw)); return }
      for (const k of t.caps) if (!s.caps.includes(k)) bad('ready.capability', `no longer offers ${k}`)
      if (s.reqs.length !== 1) { bad('ready.requests', `${s.reqs.length} requests were sent`); return }
      const [r] = s.reqs
      const base = t.base.endsWith('/') ? t.base : `${t.base}/`
      const url = `${base}${PATH[c.cap] ?? `models/m-${i}`}`
      if (r.url !== url || r.method !== (c.cap === 'model' ? 'GET' : 'POST')) bad('ready.address', `${r.method} ${r.url}, documented is ${url}`)
      const name = t.env.find(e => sc.env[e] !== undefined)
      const key = c.via === 'creator' ? (c.p === 'player2' ? '' : `own-key-${i}`) : name === undefined ? '' : sc.env[name]
      if (key ? r.headers.authorization !== `Bearer ${key}` : !/^(Bearer)?$/.test(r.headers.authorization ?? '')) bad('ready.key', `sends ${q(r.headers.authorization ?? null)}; its variable is ${t.env.join(', ') || 'none'} (${name === undefined ? 'not set' : q(sc.env[name])})`)
      if (c.p === 'player2' && r.headers['player2-game-key'] !== 'xsai') bad('ready.key', `game key ${r.headers['player2-game-key']}`)
      const { authorization: _, ...rest } = r.headers
      if (/key-of-|own-key-/.test(safeJson([r.url, rest, r.text, r.form?.map(([, v]) => String(v))]))) bad('ready.leak', `a key appears outside the authorization: ${safeJson([r.url, rest, r.text])}`)
      if (s.r.state === 'pending') { bad('ready.pending', 'never settles'); return }
      if (c.fault) {
        if (s.r.state === 'fulfilled') { if (c.cap === 'speech' ? c.fault.k === 'http' || c.fault.k === 'reject' : true) bad('ready.error', `resolved although the provider failed with ${q(c.fault)}`) }
        else { const x = wrongFailure(c.fault, s.r.error, s.errs, L); if (x) bad('ready.error', `failed with ${x} on ${q(c.fault)}`) }
        return
      }
      if (s.r.state === 'rejected') { bad('ready.spurious', `failed with ${show(s.r.error)}`); return }
      const v = s.r.value
      const ok = { chat: () => v.text === `answer ${i}`, embed: () => deepEq(v.embedding, [i, 1]), image: () => v.image.base64.includes('iVBORw0KGgoAAAAN'), speech: () => deepEq([...new Uint8Array(v)], [i, 1, 2]), transcription: () => v.text === `heard ${i}`, model: () => v.id === `m-${i}` }[c.cap]
      if (!ok()) bad('ready.result', `resolved with ${safeJson(v)}`)
    })
    for (const e of w.unhandled) out.push({ rule: 'unhandled.rejection', msg: show(e) })
    return out
  },
  nontrivial: busyRun,
}
