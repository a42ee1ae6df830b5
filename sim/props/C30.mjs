// Schemas of every supported validation library: the provider is asked for what the schema says.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { genBodyWire, unaryPlan } from '../unary.mjs'
import { CONVERT, LIBRARIES, MODULES, schemaIn } from '../vendors.mjs'
import { deepEq, observe, safeJson, show } from '../world.mjs'

const enc = new TextEncoder()
const short = (x) => { const s = safeJson(x) ?? 'undefined'; return s.length > 400 ? `${s.slice(0, 400)}…` : s }
const NAMES = ['a', 'b', 'userName', 'type', 'properties', 'items', 'snake_case', 'x-y', 'é', 'required']

const genShape = (rng, depth, props = [0, 4]) => {
  const names = rng.shuffle([...NAMES])
  return {
    k: 'object',
    props: Array.from({ length: props[0] + rng.int(props[1] - props[0] + 1) }, (_, i) => ({ name: names[i], ...(rng.bool(0.25) ? { opt: true } : {}), s: genType(rng, depth - 1) })),
  }
}
const genType = (rng, depth) => {
  const k = rng.wpick([[3, 'string'], [2, 'number'], [2, 'boolean'], [1, 'enum'], [1, 'union'], [depth > 0 ? 2 : 0, 'array'], [depth > 0 ? 3 : 0, 'object']])
  if (k === 'enum') return { k, values: rng.pick([['x'], ['x', 'y'], ['type', 'object', '']]) }
  if (k === 'array') return { k, of: genType(rng, depth - 1) }
  if (k === 'object') return genShape(rng, depth, [1, 3])
  return { k }
}
const genValue = (rng, s) => {
  switch (s.k) {
    case 'string': return rng.pick(['', 'v', 'é🙂'])
    case 'number': return rng.pick([0, -1.5, 42])
    case 'boolean': return rng.bool()
    case 'union': return rng.pick(['u', 7])
    case 'enum': return rng.pick(s.values)
    case 'array': return Array.from({ length: rng.int(3) }, () => genValue(rng, s.of))
    default: return Object.fromEntries(s.props.filter(p => !p.opt || rng.bool()).map(p => [p.name, genValue(rng, p.s)]))
  }
}
/** a schema that carries its JSON form itself, the same object every time it is asked */
const plainJson = s => s.k === 'enum' ? { enum: s.values } : s.k === 'union' ? { type: ['string', 'number'] } : s.k === 'array' ? { type: 'array', items: plainJson(s.of) } : s.k === 'object' ? { type: 'object', properties: Object.fromEntries(s.props.map(p => [p.name, plainJson(p.s)])), required: s.props.filter(p => !p.opt).map(p => p.name) } : { type: s.k }
const own = (shape) => {
  const json = plainJson(shape)
  return { '~standard': { version: 1, vendor: 'own', jsonSchema: { input: () => json, output: () => ({ type: 'null' }) }, validate: value => ({ value }) } }
}

/** the library's schema, closed where strict mode closes it: the object, and objects among its properties */
const close = s => ({ ...s, additionalProperties: false, ...(s.properties ? { properties: Object.fromEntries(Object.entries(s.properties).map(([k, v]) => [k, v !== null && typeof v === 'object' && v.type === 'object' ? close(v) : v])) } : {}) })
/** does the JSON Schema describe the shape? an independent reading, null when it does */
const differs = (j, s, at = '$') => {
  if (j === null || typeof j !== 'object') return `${at} is ${short(j)}`
  switch (s.k) {
    case 'enum': {
      const got = j.enum ?? ('const' in j ? [j.const] : j.anyOf?.map(x => x.const))
      return got && deepEq([...got].sort(), [...s.values].sort()) ? null : `${at} allows ${short(j)}`
    }
    case 'union': {
      const got = j.anyOf?.map(x => x.type) ?? j.type
      return Array.isArray(got) && deepEq([...got].sort(), ['number', 'string']) ? null : `${at} allows ${short(j)}`
    }
    case 'array': return j.type !== 'array' ? `${at} is ${short(j)}` : differs(j.items, s.of, `${at}[]`)
    case 'object': {
      if (j.type !== 'object') return `${at} is ${short(j)}`
      const props = j.properties ?? {}
      if (!deepEq(Object.keys(props).sort(), s.props.map(p => p.name).sort())) return `${at} has the properties ${Object.keys(props)}`
      if (!deepEq([...(j.required ?? [])].sort(), s.props.filter(p => !p.opt).map(p => p.name).sort())) return `${at} requires ${j.required}`
      for (const p of s.props) { const d = differs(props[p.name], p.s, `${at}.${p.name}`); if (d) return d }
      return null
    }
    default: return j.type === s.k && !['enum', 'const', 'pattern', 'minimum', 'maximum', 'minLength', 'maxLength'].some(k => k in j) ? null : `${at} is ${short(j)}`
  }
}

export default {
  id: 'C30',
  rule: BUSY,
  runs: { quick: 12000, thorough: 3000000 },
  real: ['xsschema (conversion, strict mode, validation)', 'tool', 'generate-object', 'stream-object', 'generate-text, stream-text', `schema libraries: ${LIBRARIES.join(', ')}`],
  stub: ['loading of the converter packages (scheduled, and failed, by the simulator)', 'model provider and network (scripted)'],
  assumptions: ['a converter package may be missing for the whole run, or fail to load a few times and then load'],
  gen: (rng) => {
    const libs = rng.bool(0.5) ? LIBRARIES : [rng.pick(LIBRARIES), rng.pick(LIBRARIES)]
    const ops = Array.from({ length: 1 + rng.int(5) }, () => {
      const k = rng.wpick([[2, 'json'], [3, 'tool'], [1, 'defineTool'], [2, 'object'], [1, 'stream']])
      const lib = k === 'defineTool' ? rng.pick(['own', ...LIBRARIES.filter(l => CONVERT[l][0] === null && !l.endsWith('-old'))]) : rng.wpick([[8, rng.pick(libs)], [1, 'own'], [0.4, 'unknown']])
      const shape = genShape(rng, 3)
      const value = genValue(rng, shape)
      const op = { k, lib, shape, value, wire: genBodyWire(rng) }
      if (rng.bool(0.5)) op.strict = rng.bool()
      if (rng.bool(0.4)) op.later = true
      if ((k === 'object' || k === 'stream') && rng.bool(0.4)) op.array = true
      // a value the schema must refuse
      const req = shape.props.filter(p => !p.opt)
      if (req.length && lib !== 'own' && k !== 'stream' && rng.bool(0.25)) { const p = rng.pick(req); op.value = { ...value, [p.name]: p.s.k === 'boolean' ? 'no' : p.s.k === 'array' ? 'no' : { no: null } }; op.refused = true; if (p.s.k === 'object') op.value[p.name] = 'no' }
      return op
    })
    // two calls with one and the same schema
    if (ops.length > 1 && rng.bool(0.3)) { ops[1] = { ...ops[1], lib: ops[0].lib, shape: ops[0].shape, value: ops[0].value, refused: ops[0].refused, same: true }; if (ops[1].k === 'defineTool' || ops[1].k === 'stream') { ops[1].k = 'json'; delete ops[1].array } }
    const fail = {}
    if (rng.bool(0.45)) for (const m of Object.keys(MODULES)) if (rng.bool(0.35)) fail[m] = rng.pick([1, 1, 2, 99])
    return { ops, fail }
  },
  main: async (w, L, sc) => {
    const st = { loads: [], ops: [] }
    const left = { ...sc.fail }
    globalThis.__simImport = name => w.later('import', `load ${name}`, () => {
      const ok = !(left[name] > 0)
      if (!ok) { left[name]--; w.fault('module.load-fails') }
      st.loads.push({ name, ok, s: w.log('load', { name, ok }) })
      if (!ok) throw Object.assign(new Error(`Cannot find package '${name}'`), { code: 'ERR_MODULE_NOT_FOUND' })
      return MODULES[name]
    })
    const made = []
    await Promise.all(sc.ops.map(async (op, i) => {
      const s = { reqs: [], ran: [] }
      st.ops[i] = s
      s.schema = op.same ? made[0] : op.lib === 'own' ? own(op.shape) : op.lib === 'unknown' ? { '~standard': { version: 1, vendor: 'typebox', validate: value => ({ value }) } } : schemaIn(op.lib, op.shape)
      made[i] = s.schema
      if (op.lib === 'own') s.before = safeJson(s.schema['~standard'].jsonSchema.input())
      if (op.later) await w.later('start', `start ${i}`)
      s.from = w.log('op', { i, k: op.k, lib: op.lib })
      const strict = op.strict === undefined ? {} : { strict: op.strict }
      const reply = (req) => {
        const n = s.reqs.push(req)
        const message = /[Tt]ool/.test(op.k)
          ? n === 1 ? { role: 'assistant', content: null, tool_calls: [{ id: 'c1', type: 'function', function: { name: 't', arguments: JSON.stringify(op.value) } }] } : { role: 'assistant', content: 'done' }
          : { role: 'assistant', content: JSON.stringify(op.array ? { elements: [op.value] } : op.value) }
        const usage = { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 }
        const finish = message.tool_calls ? 'tool_calls' : 'stop'
        return op.k === 'stream'
          ? unaryPlan(enc.encode(`data: ${JSON.stringify({ choices: [{ index: 0, delta: { content: message.content }, finish_reason: finish }] })}\n\ndata: [DONE]\n\n`), op.wire, undefined, undefined, 'text/event-stream')
          : unaryPlan(enc.encode(JSON.stringify({ id: 'c', object: 'chat.completion', choices: [{ index: 0, finish_reason: finish, message }], usage })), op.wire)
      }
      const base = { baseURL: 'https://p.test/v1/', model: 'm', messages: [{ role: 'user', content: 'hi' }], fetch: w.makeFetch(reply) }
      const run = async () => {
        switch (op.k) {
          case 'json': return L.xsschema.toJsonSchema(s.schema)
          case 'tool':
          case 'defineTool': {
            const t = await L.xsai[op.k]({ name: 't', description: 'd', parameters: s.schema, execute: (x) => { s.ran.push(x); return 'ok' }, ...strict })
            return L.xsai.generateText({ ...base, tools: [t], stopWhen: L.xsai.stepCountAtLeast(2) })
          }
          case 'object': return L.xsai.generateObject({ ...base, schema: s.schema, ...strict, ...(op.array ? { output: 'array' } : {}) })
          default: {
            const r = await L.xsai.streamObject({ ...base, schema: s.schema, ...strict, ...(op.array ? { output: 'array' } : {}) })
            const got = []
            const reader = (op.array ? r.elementStream : r.partialObjectStream).getReader()
            for (;;) { const x = await reader.read(); if (x.done) break; got.push(x.value) }
            return { object: op.array ? got : got.at(-1) }
          }
        }
      }
      let p
      try { p = run() }
      catch (e) { p = Promise.reject(e) }
      s.r = observe(w, `op ${i}`, p)
    }))
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    sc.ops.forEach((op, i) => {
      const s = st.ops[i]
      const bad = (rule, msg) => out.push({ rule, msg: `${op.k} ${i} (${op.lib}${op.strict === undefined ? '' : `, strict ${op.strict}`}): ${msg}` })
      const r = s.r
      if (r.state === 'pending') { bad('schema.pending', 'never settles'); return }
      if (op.lib === 'unknown') {
        if (r.state !== 'rejected' || !(r.error instanceof Error) || !r.error.message.includes('typebox')) bad('schema.unknown', `a schema of an unsupported library gave ${r.state === 'rejected' ? show(r.error) : short(r.value)}`)
        if (s.reqs.length) bad('schema.unknown', 'a request was sent')
        return
      }
      const [module, convert] = CONVERT[op.lib] ?? [null, x => x['~standard'].jsonSchema.input()]
      const failed = st.loads.filter(l => l.name === module && !l.ok)
      const loaded = st.loads.some(l => l.name === module && l.ok)
      if (r.state === 'rejected') {
        if (r.error instanceof Error && failed.some(l => l.s > s.from) && s.reqs.length === 0) {
          if (!r.error.message.includes(module.split('/')[0])) bad('schema.missing', `the package ${module} did not load; the error says ${show(r.error)}`)
          return
        }
        if (!op.refused || op.k !== 'object') { bad('schema.spurious', `failed with ${show(r.error)} although ${module ?? 'nothing'} had to be loaded and ${failed.length ? 'its loading failed only earlier' : 'loads did not fail'}`); return }
      }
      else if (module && failed.length && !loaded) { bad('schema.missing', `succeeded although ${module} never loaded`); return }
      const mine = convert(op.lib === 'own' ? own(op.shape) : schemaIn(op.lib, op.shape))
      const check = (got, strict, what) => {
        const d = differs(got, op.shape)
        if (d) { bad('schema.meaning', `${what} does not describe the schema: ${d} in ${short(got)}`); return }
        const want = strict ? close(mine) : mine
        if (!deepEq(JSON.parse(JSON.stringify(got)), JSON.parse(JSON.stringify(want)))) bad('schema.form', `${what} is ${short(got)}, the library describes it as ${short(want)}`)
      }
      if (op.lib === 'own' && safeJson(s.schema['~standard'].jsonSchema.input()) !== s.before) bad('schema.altered', `the caller's schema became ${short(s.schema['~standard'].jsonSchema.input())}`)
      const strict = op.strict !== false
      if (op.k === 'json') { check(r.value, false, 'the result'); return }
      if (op.k === 'tool' || op.k === 'defineTool') {
        if (s.reqs.length !== 2) { bad('schema.request', `${s.reqs.length} requests were sent`); return }
        s.reqs.forEach((q, n) => {
          const f = q.json?.tools?.[0]?.function
          if (f?.strict !== strict || q.json.tools.length !== 1) bad('schema.request', `request ${n} offers ${short(q.json?.tools)}`)
          else check(f.parameters, strict, `the tool in request ${n}`)
        })
        if (op.refused ? s.ran.length : s.ran.length !== 1 || !deepEq(s.ran[0], op.value)) bad('schema.validate', `the tool ran with ${short(s.ran)} for the input ${short(op.value)}${op.refused ? ', which the schema refuses' : ''}`)
        return
      }
      const f = s.reqs[0]?.json?.response_format?.json_schema
      if (s.reqs.length !== 1 || f?.strict !== strict) { bad('schema.request', `${s.reqs.length} requests, format ${short(f)}`); return }
      check(op.array ? f.schema?.properties?.elements?.items : f.schema, strict, 'the response format')
      if (op.refused) { if (r.state === 'fulfilled') bad('schema.validate', `resolved with ${short(r.value?.object)}, which the schema refuses`) }
      else if (!deepEq(r.value?.object, op.array ? [op.value] : op.value) && !(op.k === 'stream' && Object.keys(op.value).length === 0)) bad('schema.value', `resolved with ${short(r.value?.object)} for ${short(op.value)}`)
    })
    for (const e of w.unhandled) out.push({ rule: 'unhandled.rejection', msg: show(e) })
    return out
  },
  nontrivial: busyRun,
}
