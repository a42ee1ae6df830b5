// streamObject: array elements and partial objects against the JSON the model wrote.
import { genConv } from '../chat-gen.mjs'
import { judgeConv, startConv } from '../chat-run.mjs'
import { BUSY, busyRun, STUB } from '../conv-prop.mjs'
import { completeElements, cutAnywhere, genJson, genObj, hasExponent, hasPrefixKeys, partialOf, same, writeJson } from '../json-gen.mjs'
import { consume, deepEq, show } from '../world.mjs'

const SCHEMA = { type: 'object', properties: { id: { type: 'string', maxLength: 9 }, nested: { type: 'object', properties: { firstName: { type: 'number' } }, required: ['firstName'] } }, required: ['id'] }
const SCHEMA_STRICT = { type: 'object', properties: { id: { type: 'string', maxLength: 9 }, nested: { type: 'object', properties: { firstName: { type: 'number' } }, required: ['firstName'], additionalProperties: false } }, required: ['id'], additionalProperties: false }
const freeze = (x) => { if (x && typeof x === 'object') Object.values(Object.freeze(x)).forEach(freeze); return x }
freeze(SCHEMA)
const short = (x) => { const s = JSON.stringify(x) ?? 'undefined'; return s.length > 300 ? `${s.slice(0, 300)}…` : s }
export const schemaOf = (kind, validate) => ({
  '~standard': {
    version: 1,
    vendor: 'sim',
    jsonSchema: { input: () => SCHEMA, output: () => ({ type: 'object' }) },
    validate: validate ?? (v => ({ value: v })),
  },
})

export const genObjectScenario = (rng, api) => {
  const sc = genConv(rng, { apis: [api], turns: [1, 3], toolFaults: 0.05, consumers: 'all', faultP: 0, callsP: 0.5 })
  sc.stop = { k: 'never' }
  sc.output = rng.wpick([[4, 'array'], [3, 'object'], [2, 'default']])
  const strip = (t) => { t.deltas = t.deltas.map(({ t: _t, f: _f, r, ...d }) => r !== undefined ? { ...d, r } : d) }
  sc.turns.forEach((t, i) => {
    if (i < sc.turns.length - 1) { strip(t); return }
    t.calls = []
    delete t.parts
    sc.empty = rng.bool(0.06)
    sc.value = sc.output === 'array' ? { elements: rng.bool(0.015) ? Array.from({ length: 20 + rng.int(60) }, () => genJson(rng, rng.pick([0, 0, 1, 2]))) : Array.from({ length: rng.int(6) }, () => genJson(rng, 2)) } : genObj(rng, 3)
    if (sc.output === 'array' && rng.bool(0.003)) sc.value.elements.push(...Array.from({ length: 300 + rng.int(900) }, (_, i) => rng.bool(0.2) ? `e${i}` : i))
    if (sc.output === 'array' && rng.bool(0.012)) sc.value.elements.unshift({ text: `${rng.pick(['line "x", ', 'né\n', '{[', 'word '])}`.repeat(300 + rng.int(1200)) })
    if (sc.output === 'array' && rng.bool(0.2)) sc.value = rng.bool() ? { reason: 'x,y', ...sc.value } : { ...sc.value, extra: [1, 2] }
    sc.text = sc.empty ? '' : writeJson(rng, sc.value)
    // a model that runs out of tokens stops in the middle
    if (api === 'streamText' && !sc.empty && sc.text.length > 2 && rng.bool(0.08)) { sc.short = true; sc.text = sc.text.slice(0, 1 + rng.int(sc.text.length - 1)); t.finish = 'length' }
    t.deltas = sc.empty ? [] : cutAnywhere(rng, sc.text).map(x => ({ t: x }))
    if (rng.bool(0.3)) t.deltas.unshift({ r: 'thinking {"elements":[' })
    if (rng.bool(0.2)) t.deltas.splice(rng.int(t.deltas.length + 1), 0, { t: '' })
    if (t.finish === 'tool_calls') t.finish = 'stop'
  })
  sc.schemaName = rng.bool(0.3) ? 'thing' : undefined
  sc.schemaDescription = rng.bool(0.2) ? 'a thing' : undefined
  sc.strict = rng.bool(0.3) ? rng.bool() : undefined
  return sc
}
export const objectOptions = (sc, schema) => ({
  schema,
  ...(sc.output === 'default' ? {} : { output: sc.output }),
  ...(sc.schemaName ? { schemaName: sc.schemaName } : {}),
  ...(sc.schemaDescription ? { schemaDescription: sc.schemaDescription } : {}),
  ...(sc.strict !== undefined ? { strict: sc.strict } : {}),
})
/** every request must ask the model for that schema */
export const judgeFormat = (sc, reqs, bad) => {
  reqs.forEach((r, i) => {
    const f = r.json?.response_format
    const js = f?.json_schema
    if (f?.type !== 'json_schema' || js?.name !== (sc.schemaName ?? 'json_schema') || js.description !== sc.schemaDescription || js.strict !== (sc.strict ?? true)) { bad('request.format', `request ${i} response_format ${short(f)}`); return }
    const s = sc.output === 'array' ? js.schema?.properties?.elements?.items : js.schema
    if (!deepEq(s, sc.strict === false ? SCHEMA : SCHEMA_STRICT) || (sc.output === 'array' && (js.schema.type !== 'object' || !deepEq(js.schema.required, ['elements']) || Object.keys(js.schema.properties).length !== 1 || js.schema.properties.elements.type !== 'array'))) bad('request.format', `request ${i} asks for ${short(js.schema)}`)
    if (['schema', 'output', 'schema_name', 'schema_description', 'strict'].some(k => k in r.json)) bad('request.format', `request ${i} leaks call options`)
  })
}

export default {
  id: 'C15',
  rule: BUSY,
  runs: { quick: 20000, thorough: 4000000 },
  real: ['stream-object', 'stream-text', 'shared-stream', 'shared-chat', 'xsschema'],
  stub: STUB,
  assumptions: ['a response that ends in the middle of a value is only required to deliver the elements that were complete', 'object keys are written in a fixed order and are not integer-like'],
  // best-effort parsing of numbers written with an exponent goes wrong, and a key that begins
  // like an earlier key of the same object hides that key while it is being written
  knownKey: (v, r) => v.rule.startsWith('object.') && hasExponent(r.scenario.text ?? '') ? 'exponent-number' : v.rule === 'object.partial' && hasPrefixKeys(r.scenario.value) ? 'prefix-key' : undefined,
  gen: (rng) => {
    const sc = genObjectScenario(rng, 'streamText')
    if (rng.bool(0.25)) {
      const t = sc.turns.at(-1)
      t.fault = rng.pick([{ k: 'cut', frac: rng.float(), mode: 'error' }, { k: 'cut', frac: rng.float(), mode: 'close' }, { k: 'badjson', frac: rng.float(), data: '{oops' }, { k: 'sseerror', frac: rng.float(), json: { error: { message: 'overloaded' } } }, { k: 'http', status: 500, body: 'x', split: 0 }, { k: 'reject' }])
    }
    const mode = () => rng.wpick([[5, { mode: 'read' }], [2, { mode: 'slow', late: rng.bool(0.4) }], [1, { mode: 'cancel', after: rng.int(3), deferred: rng.bool() }], [1, { mode: 'ignore' }]])
    sc.struct = rng.bool(0.8) ? rng.wpick([[4, { mode: 'read' }], [2, { mode: 'slow', late: rng.bool() }]]) : mode()
    for (const n of ['text', 'event', 'full', 'reasoning']) sc.consumers[n] = mode()
    return sc
  },
  main: async (w, L, sc) => {
    const st = {}
    st.o = await startConv(w, L, sc, '', {
      addOptions: objectOptions(sc, schemaOf()),
      call: async (lib, options) => {
        const res = await L.xsai.streamObject(options)
        const s = sc.output === 'array' ? res.elementStream : res.partialObjectStream
        st.other = sc.output === 'array' ? res.partialObjectStream : res.elementStream
        st.struct = consume(w, 'struct', s, sc.struct)
        return res
      },
    })
    // the text the model has written so far, for promptness
    w.onQuiescent.push(() => {
      const s = st.struct
      if (!s || st.late || sc.output !== 'array' || s.mode !== 'read' || s.state !== 'open' || sc.turns.at(-1).fault) return
      const c = st.o?.cons.text
      if (!c || (c.mode !== 'read' && c.mode !== 'ignore')) return
      const r = st.o.reqs.at(-1)
      if (st.o.reqs.length !== sc.turns.length || !r?.body || !st.o.cons.full || st.o.cons.full.mode !== 'read') return
      // everything the full stream has shown is text the caller could have had
      const text = st.o.cons.full.items.map(x => x.choices?.[0]?.delta?.content ?? '').join('')
      if (/\\(u[0-9a-fA-F]{0,3})?$/.test(text)) return // half an escape: nothing can be parsed yet
      const n = completeElements(text)
      if (s.items.length < n - 1) st.late = { got: s.items.length, n, text }
    })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg: `[${sc.output}] ${msg}` })
    const { o, struct: s } = st
    const all = judgeConv(o, L)
    const truncatedEarly = sc.turns.at(-1).fault?.mode === 'close'
    if (o.syncThrow) return all
    // the conversation under the object must be intact; an empty answer additionally errors the object streams
    for (const v of all) {
      if (/^(settle|errors|history|loop|tools)\./.test(v.rule) && !((sc.empty || /Cannot stream an object from an empty|InvalidResponseError/.test(v.msg)) && (sc.empty || truncatedEarly) && /^settle\.(stream-vs-promise|reasons)$/.test(v.rule) && /text stream/.test(v.msg))) out.push(v)
      if (/^deliver\.(text|full|reasoning)$/.test(v.rule)) out.push(v)
    }
    if (st.other !== undefined) bad('object.shape', 'both an element stream and a partial object stream were returned')
    if (!s || s.state === 'absent') { bad('object.shape', 'the object stream is missing'); return out }
    judgeFormat(sc, o.reqs, bad)
    if (st.late) bad('object.prompt', `only ${st.late.got} elements were delivered while ${st.late.n} were complete: ${short(st.late.text)}`)
    const fault = sc.turns.at(-1).fault
    const reached = o.reqs.length === sc.turns.length
    const truncated = (fault?.k === 'cut' && fault.mode === 'close') || sc.short
    const failed = fault && !(fault.k === 'cut' && fault.mode === 'close')
    const truth = sc.empty ? undefined : sc.value
    if (s.mode === 'ignore') return out
    if (s.state === 'open') { bad('object.open', 'the object stream never ends'); return out }
    if (sc.output === 'array') {
      const want = truth?.elements ?? []
      const n = truncated ? Math.min(s.items.length, want.length) - 1 : s.items.length
      for (let i = 0; i < Math.min(s.items.length, Math.max(n, 0)); i++) {
        if (i >= want.length || !deepEq(s.items[i], want[i])) { bad('object.elements', `element ${i} is ${short(s.items[i])}, the model wrote ${short(want[i])}; all ${short(want)}`); break }
      }
      if (s.items.length > want.length) bad('object.extra', `${s.items.length} elements delivered, the model wrote ${want.length}: ${short(s.items)}`)
      if (s.state === 'closed' && truncated && o.cons.full?.mode === 'read' && s.mode !== 'cancel') {
        const text = o.cons.full.items.map(x => x.choices?.[0]?.delta?.content ?? '').join('')
        const n = Math.min(completeElements(text), want.length)
        if (s.items.length < n) bad('object.missing', `the model stopped after ${n} complete elements, only ${s.items.length} were delivered: ${short(text)}`)
      }
      if (s.state === 'closed' && !fault && !sc.short && s.items.length !== want.length) bad('object.missing', `${s.items.length} elements delivered, the model wrote ${want.length}`)
    }
    else {
      const want = truth
      for (let i = 0; i < s.items.length; i++) {
        const p = s.items[i]
        if (want === undefined || !partialOf(p, want)) { bad('object.partial', `partial ${i} ${short(p)} does not lead to ${short(want)}`); break }
        if (i > 0 && same(s.items[i - 1], p)) { bad('object.repeat', `partial ${i} repeats ${short(p)}`); break }
      }
      if (s.state === 'closed' && !fault && !sc.short && !sc.empty && !(Object.keys(want).length === 0 && s.items.length === 0) && !same(s.items.at(-1), want)) bad('object.final', `the last object is ${short(s.items.at(-1))}, the model wrote ${short(want)}`)
    }
    if (s.state === 'closed' && failed && reached) bad('object.swallowed', `the object stream ended normally despite ${JSON.stringify(fault)}`)
    if (sc.empty && !fault) {
      for (const c of [s, o.cons.text]) {
        if (c.mode === 'ignore' || c.mode === 'cancel') continue
        if (c.state !== 'errored') bad('object.empty', `an empty response ended the ${c.name} stream with ${c.state}`)
        else if (!L.xsai.InvalidResponseError.isInstance(c.error) || c.error.reason !== 'empty_body') bad('object.empty', `an empty response failed with ${show(c.error)}`)
      }
    }
    if (s.state === 'errored' && !fault && !sc.empty && !sc.short) bad('object.spurious', `the object stream failed with ${show(s.error)}`)
    return out
  },
  nontrivial: busyRun,
}
