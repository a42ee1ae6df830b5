// Telemetry spans: one per request, one per executed tool, each ended exactly once and truthful.
import { AsyncLocalStorage } from 'node:async_hooks'
import { genConv, STATUSES } from '../chat-gen.mjs'
import { expectConv, startConv } from '../chat-run.mjs'
import { BUSY, busyRun, REAL, STUB } from '../conv-prop.mjs'
import { deepEq, observe, show } from '../world.mjs'

// one recording tracer provider per process; it records into the current world, and like a
// real one knows the span that is active in the asynchronous context
const context = new AsyncLocalStorage()
let cur = null
let registered = false
const register = (L) => {
  if (registered) return
  registered = true
  const span = (name, attributes) => {
    const st = cur
    const r = { name, attributes: { ...attributes }, status: undefined, exceptions: [], ended: [], late: [], start: st.w.log('span.start', { name }), n: st.spans.length, parent: context.getStore()?.n }
    st.spans.push(r)
    const touch = (k, f) => { if (r.ended.length) r.late.push(k); else f() }
    return {
      setAttribute(k, v) { touch(k, () => { r.attributes[k] = v }); return this },
      setAttributes(a) { touch('setAttributes', () => Object.assign(r.attributes, a)); return this },
      addEvent() { return this }, addLink() { return this }, addLinks() { return this },
      setStatus(s) { touch('setStatus', () => { r.status = s }); return this },
      recordException(e) { touch('recordException', () => r.exceptions.push(e)) },
      updateName(n) { r.name = n; return this },
      isRecording: () => r.ended.length === 0,
      spanContext: () => ({ traceId: '1'.repeat(32), spanId: String(r.n + 1).padStart(16, '0'), traceFlags: 1 }),
      end() { r.ended.push(st.w.log('span.end', { name, n: r.n })) },
    }
  }
  const tracer = {
    startSpan: (name, o) => span(name, o?.attributes),
    startActiveSpan: (name, ...a) => {
      const fn = a.pop()
      const n = cur.spans.length
      const sp = span(name, a[0]?.attributes)
      return context.run({ n }, fn, sp)
    },
  }
  L.trace.setGlobalTracerProvider({ getTracer: () => tracer })
}

export default {
  id: 'C23',
  rule: BUSY,
  runs: { quick: 25000, thorough: 4000000 },
  real: [...REAL.tel, ...REAL.chat, ...REAL.stream, '@opentelemetry/api'],
  stub: [...STUB, 'the tracer provider (records spans)'],
  gen: (rng) => {
    if (rng.bool(0.1)) {
      return { kind: 'embed', many: rng.bool(), model: `e-${rng.int(3)}`, tokens: rng.bool(0.15) ? undefined : rng.bool(0.1) ? 0 : rng.int(50), rest: rng.bool(0.3) ? 1 + rng.int(9) : 0, base: rng.pick(['https://x.test/v1', 'http://emb.test:8123/v1/', 'http://plain.test/v1']), dimensions: rng.bool(0.4) ? 1 + rng.int(512) : undefined, attributes: rng.bool() ? { 'app.a': 1 } : undefined, fault: rng.bool(0.4) ? rng.pick([{ k: 'http', status: rng.pick(STATUSES) }, { k: 'reject' }, { k: 'badjson' }, { k: 'error' }]) : null }
    }
    const n = rng.wpick([[6, 1], [2, 2], [1, 3]])
    const scs = Array.from({ length: n }, (_, i) => {
      const sc = genConv(rng, { apis: ['tel.streamText', 'tel.generateText'], hooks: rng.bool(0.4), toolFaults: 0.25, consumers: rng.bool(0.6) ? 'all' : 'mixed', faultP: 0.25, abortP: rng.bool(0.2) ? 1 : 0, prepareP: 0.2, fatalP: 0.06, cbFaultP: 0.06, cbFaults: ['stopWhen', 'onFinish'], toolDefP: 0.4, extraP: 0.3, ...(n > 1 ? { idPrefix: `${'ABC'[i]}-`, globalFetchP: 0 } : {}) })
      if (rng.bool(0.4)) Object.assign(sc.extra ??= {}, genSampling(rng))
      return sc
    })
    return { kind: 'conv', scs, ambient: rng.bool(0.3), start: scs.map(() => rng.bool(0.3)) }
  },
  main: async (w, L, s) => {
    register(L)
    const st = { w, spans: [] }
    cur = st
    if (s.kind === 'conv') {
      const tracer = L.trace.getTracer('app')
      st.os = []
      const all = async () => {
        await Promise.all(s.scs.map(async (sc, i) => {
          if (s.start[i]) await w.later('start', `start ${i}`)
          st.os[i] = await startConv(w, L, sc, s.scs.length > 1 ? 'ABC'[i] : '', {})
        }))
      }
      if (s.ambient) await tracer.startActiveSpan('app', async (span) => { await all(); span.end() })
      else await all()
      return st
    }
    const f = s.fault
    const enc = new TextEncoder()
    st.err = new TypeError('sim network')
    const fetch = w.makeFetch(() => {
      const j = x => [enc.encode(typeof x === 'string' ? x : JSON.stringify(x))]
      if (f?.k === 'reject') return { reject: st.err }
      if (f?.k === 'http') { w.fault('net.http-status'); return { status: f.status, pieces: j('no'), end: 'close' } }
      if (f?.k === 'badjson') { w.fault('net.badjson'); return { pieces: j('{"data'), end: 'close' } }
      if (f?.k === 'error') return { pieces: j('{"da'), end: 'error', endError: st.err }
      return { pieces: j({ data: [{ embedding: [1], index: 0 }], ...(s.tokens === undefined ? {} : { usage: { prompt_tokens: s.tokens, total_tokens: s.tokens + (s.rest ?? 0) } }) }), end: 'close' }
    })
    st.r = observe(w, 'embed', L.telemetry[s.many ? 'embedMany' : 'embed']({ baseURL: s.base, model: s.model, ...(s.dimensions ? { dimensions: s.dimensions } : {}), input: s.many ? ['a'] : 'a', fetch, telemetry: s.attributes ? { attributes: s.attributes } : undefined }))
    return st
  },
  judge: (w, L, s, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg })
    const once = () => {
      for (const p of st.spans) {
        if (p.ended.length === 0) bad('span.open', `span ${p.n} "${p.name}" was never ended`)
        if (p.ended.length > 1) bad('span.twice', `span ${p.n} "${p.name}" was ended ${p.ended.length} times`)
        if (p.late.length) bad('span.late', `span ${p.n} "${p.name}" was changed after its end (${p.late})`)
      }
    }
    if (s.kind === 'embed') {
      if (st.r.state === 'pending') { bad('span.pending', 'the call never settles'); return out }
      once()
      const p = st.spans[0]
      if (st.spans.length !== 1 || p.name !== `embeddings ${s.model}`) { bad('span.count', `spans ${st.spans.map(x => x.name)}`); return out }
      if (failed(p) !== (st.r.state === 'rejected')) bad('span.status', `the call ${st.r.state}, its span status is ${JSON.stringify(p.status)}`)
      if (st.r.state === 'rejected' && p.exceptions[0]?.message !== st.r.error.message) bad('span.exception', `recorded ${JSON.stringify(p.exceptions)}, failed with ${show(st.r.error)}`)
      const u = new URL(s.base)
      for (const [k, v] of [['gen_ai.operation.name', 'embeddings'], ['gen_ai.request.model', s.model], ['gen_ai.embeddings.dimension.count', s.dimensions], ['gen_ai.request.encoding_formats', 'float'], ['server.address', u.hostname], ['server.port', u.port ? Number(u.port) : u.protocol === 'https:' ? 443 : 80]]) if (p.attributes[k] !== v) bad('span.attributes', `${k} is ${p.attributes[k]}, expected ${v}`)
      if (!(p.start < (st.r.s ?? Infinity)) || !(p.ended[0] < st.r.s)) bad('span.enclose', 'the span does not end before the call settles')
      if (failed(p) && (p.attributes['error.message'] !== p.exceptions[0]?.message || p.attributes['error.type'] !== p.exceptions[0]?.name || p.status.message !== p.exceptions[0]?.message)) bad('span.exception', `span "${p.name}" says ${p.attributes['error.type']}: ${p.attributes['error.message']}`)
      if (st.r.state === 'fulfilled' && p.attributes['gen_ai.usage.input_tokens'] !== s.tokens) bad('span.usage', `input_tokens ${p.attributes['gen_ai.usage.input_tokens']}`)
      if (s.attributes && p.attributes['app.a'] !== 1) bad('span.attributes', 'the caller\'s attributes are missing')
      return out
    }
    const root = s.ambient ? 0 : undefined
    const roots = st.spans.filter(p => p.parent === root && p.n !== root)
    const mine = tag => roots.filter(p => p.attributes['sim.tag'] === (tag || 'x'))
    const known = new Set(s.scs.map((_, i) => (s.scs.length > 1 ? 'ABC'[i] : 'x')))
    for (const p of roots) if (!known.has(p.attributes['sim.tag'])) bad('span.nesting', `span ${p.n} "${p.name}" belongs to no call`)
    if (st.os.some(o => !o.syncThrow && Object.values(o.proms).some(p => p.state === 'pending'))) return out // a hanging network: judged elsewhere
    once()
    s.scs.forEach((sc, i) => {
      const o = st.os[i]
      const tag = s.scs.length > 1 ? 'ABC'[i] : ''
      const chats = mine(tag)
      const ns = new Set(chats.map(p => p.n))
      const tools = st.spans.filter(p => ns.has(p.parent))
      judgeSpans(o, sc, chats, tools, (rule, msg) => bad(rule, `${tag ? `[${tag}] ` : ''}${msg}`))
    })
    const nested = new Set(roots.map(p => p.n))
    for (const p of st.spans) if (p.n !== root && !nested.has(p.n) && !nested.has(p.parent)) bad('span.nesting', `span ${p.n} "${p.name}" has span ${p.parent} as its parent`)
    return out
  },
  nontrivial: busyRun,
}
const SAMPLING = [['temperature', [0, 0.7]], ['topP', [0, 1]], ['topK', [0, 40]], ['seed', [0, 7]], ['presencePenalty', [0, 1.5]], ['frequencyPenalty', [0, 2]], ['stop', ['END', ['a', 'b']]]]
const genSampling = rng => Object.fromEntries(rng.shuffle([...SAMPLING]).slice(0, 1 + rng.int(4)).map(([k, v]) => [k, rng.pick(v)]))
const wrap = x => x == null ? undefined : Array.isArray(x) ? x : [x]
const parse = (x) => { try { return JSON.parse(x) } catch { return undefined } }
const failed = p => p.status?.code === 2

const judgeSpans = (o, sc, chats, tools, bad) => {
    if (o.syncThrow) { bad('span.threw', show(o.syncThrow)); return }
    for (const p of chats) if (!p.name.startsWith('chat ')) bad('span.count', `unexpected span ${p.name}`)
    for (const p of tools) if (!p.name.startsWith('execute_tool ')) bad('span.count', `unexpected span ${p.name}`)
    for (const p of [...chats, ...tools]) {
      const want = chats.includes(p) ? 'chat' : 'execute_tool'
      if (p.attributes['gen_ai.operation.name'] !== want) bad('span.attributes', `span "${p.name}": operation ${p.attributes['gen_ai.operation.name']}`)
      if (failed(p) && p.exceptions[0] && (p.attributes['error.message'] !== p.exceptions[0].message || p.attributes['error.type'] !== p.exceptions[0].name || p.status.message !== p.exceptions[0].message)) bad('span.exception', `span "${p.name}" says ${p.attributes['error.type']}: ${p.attributes['error.message']}, the exception is ${p.exceptions[0].name}: ${p.exceptions[0].message}`)
    }
    const aborted = o.abortS !== undefined
    if (aborted ? chats.length < o.reqs.length || chats.length > o.reqs.length + 1 : chats.length !== o.reqs.length) bad('span.requests', `${chats.length} chat spans for ${o.reqs.length} requests`)
    o.reqs.forEach((r, k) => {
      const p = chats[k]
      if (!p) return
      if (p.name !== `chat ${r.json?.model}`) bad('span.name', `request ${k} asked ${r.json?.model}, its span is "${p.name}"`)
      if (p.attributes['gen_ai.request.model'] !== r.json?.model) bad('span.attributes', `request ${k}: gen_ai.request.model ${p.attributes['gen_ai.request.model']}`)
      for (const [key, v] of [['gen_ai.provider.name', 'openai'], ['gen_ai.request.choice.count', 1], ['gen_ai.response.model', r.json?.model]]) if (p.attributes[key] !== v) bad('span.attributes', `request ${k}: ${key} is ${p.attributes[key]}, expected ${v}`)
      const rid = p.attributes['gen_ai.response.id']
      if (typeof rid !== 'string' || !rid || chats.findIndex(q => q.attributes['gen_ai.response.id'] === rid) !== k) bad('span.attributes', `request ${k}: gen_ai.response.id ${rid} is missing or used twice`)
      if (!(p.start < r.s)) bad('span.enclose', `request ${k} was sent before its span started`)
      const next = chats[k + 1]
      if (next && !(p.ended[0] < next.start)) bad('span.overlap', `the span of step ${k} is still open when step ${k + 1} starts`)
      if (!r.json) return
      if (!deepEq(parse(p.attributes['gen_ai.input.messages']), r.json.messages)) bad('span.input', `request ${k}: the span's input messages ${p.attributes['gen_ai.input.messages']} differ from those sent`)
      for (const [a, b] of [['frequency_penalty'], ['presence_penalty'], ['seed'], ['temperature'], ['top_k'], ['top_p'], ['stop_sequences', wrap(r.json.stop)]]) {
        const want = b ?? r.json[a] ?? undefined
        if (!deepEq(p.attributes[`gen_ai.request.${a}`] ?? undefined, want)) bad('span.settings', `request ${k}: the span says ${a}=${JSON.stringify(p.attributes[`gen_ai.request.${a}`])}, sent was ${JSON.stringify(want)}`)
      }
      const u = new URL(r.url)
      const port = u.port ? Number(u.port) : u.protocol === 'https:' ? 443 : 80
      if (p.attributes['server.address'] !== u.hostname || p.attributes['server.port'] !== port) bad('span.server', `request ${k} went to ${u.host}, the span says ${p.attributes['server.address']}:${p.attributes['server.port']}`)
      const defs = p.attributes['gen_ai.tool.definitions']
      if (r.json.tools?.length ? !deepEq(parse(defs)?.map(t => [t.type, t.function?.name]), r.json.tools.map(t => [t.type, t.function.name])) : defs !== undefined && defs !== '[]') bad('span.tools-defined', `request ${k}: the span lists the tools ${defs}`)
    })
    const exp = expectConv(sc, o.plans)
    const fin = Object.values(o.proms)[0]
    // finished steps
    const stepList = fin.state === 'fulfilled' ? (fin.value.steps ?? fin.value) : o.onStepFinish.map(x => x.step)
    const conv = o.proms.messages ?? fin
    const convs = conv.state === 'fulfilled' ? JSON.parse(JSON.stringify(conv.value.messages ?? conv.value)).slice(sc.input.length).filter(m => m.role === 'assistant') : undefined
    if (Array.isArray(stepList)) {
      stepList.forEach((step, k) => {
        const p = chats[k]
        if (!p) return
        if (!deepEq(p.attributes['gen_ai.response.finish_reasons'], [step.finishReason])) bad('span.finish', `step ${k} finished with ${step.finishReason}, its span says ${JSON.stringify(p.attributes['gen_ai.response.finish_reasons'])}`)
        if (step.usage && (p.attributes['gen_ai.usage.input_tokens'] !== step.usage.inputTokens || p.attributes['gen_ai.usage.output_tokens'] !== step.usage.outputTokens)) bad('span.usage', `step ${k} used ${JSON.stringify(step.usage)}, its span says ${p.attributes['gen_ai.usage.input_tokens']}/${p.attributes['gen_ai.usage.output_tokens']}`)
        const said = convs?.[k]
        if (said && !deepEq(parse(p.attributes['gen_ai.output.messages']), [said])) bad('span.output', `step ${k} answered ${JSON.stringify(said)}, its span says ${p.attributes['gen_ai.output.messages']}`)
        if (fin.state === 'fulfilled' && failed(p)) bad('span.status', `step ${k} succeeded, its span reports ${JSON.stringify(p.status)}`)
      })
    }
    const errs = chats.filter(failed)
    if (fin.state === 'fulfilled' && errs.length) bad('span.status', `the call succeeded but ${errs.length} chat spans report an error`)
    if (fin.state === 'rejected' && !aborted && ['network', 'http', 'empty_body', 'invalid_body', 'no_choices', 'json', 'remote', 'tool-fatal', 'any'].includes(exp.terminal.err)) {
      const last = chats.at(-1)
      if (!last || !failed(last) || errs.length !== 1) bad('span.status', `the call failed with ${show(fin.error)} but the span of its last request reports ${JSON.stringify(last?.status)}`)
      else if (fin.error instanceof Error && last.exceptions[0]?.message !== fin.error.message) bad('span.exception', `recorded ${JSON.stringify(last.exceptions[0]?.message)}, failed with ${show(fin.error)}`)
    }
    if (fin.state === 'rejected' && aborted && !sc.cbFault && !sc.fatal && errs.length > 1) bad('span.status', `the call was aborted, ${errs.length} chat spans report an error`)
    if (fin.state === 'rejected' && aborted && !sc.cbFault) {
      const last = chats.at(-1)
      // whatever failed the call failed its last step
      if (last && !failed(last)) bad('span.status', `the call failed with ${show(fin.error)} after an abort but the span of its last step reports ${JSON.stringify(last.status)}`)
      else if (last && fin.error instanceof Error && last.exceptions[0]?.message !== fin.error.message) bad('span.exception', `recorded ${JSON.stringify(last.exceptions[0]?.message)}, failed with ${show(fin.error)}`)
    }
    // tools
    const execs = []
    for (const [id, rec] of Object.entries(o.calls)) for (const e of rec.exec) execs.push({ id, ...e })
    execs.sort((a, b) => a.s - b.s)
    if (execs.length !== tools.length) bad('span.tools', `${execs.length} tool executions, ${tools.length} tool spans`)
    const left = [...tools]
    for (const e of execs) {
      const i = left.findIndex(p => p.attributes['gen_ai.tool.call.id'] === e.id && p.name === `execute_tool ${e.name}`)
      if (i < 0) { bad('span.tools', `the execution of ${e.name} for ${e.id} has no span`); continue }
      const [p] = left.splice(i, 1)
      if (!(p.start < e.s)) bad('span.enclose', `tool ${e.id} ran before its span started`)
      let a; try { a = JSON.parse(p.attributes['gen_ai.tool.call.arguments']) } catch {}
      if (sc.tools.find(t => t.name === e.name)?.val !== 'bigint' && !deepEq(a, e.input)) bad('span.arguments', `tool ${e.id} ran with ${JSON.stringify(e.input)}, its span says ${p.attributes['gen_ai.tool.call.arguments']}`)
      const c = sc.turns.flatMap(t => t.calls).find(c => c.id === e.id)
      const done = o.calls[e.id].done[0]
      if (done !== undefined && p.ended[0] < done) bad('span.enclose', `the span of tool ${e.id} ended before the tool did`)
      const threw = c.exec.k === 'throw' || c.exec.k === 'reject'
      if (o.calls[e.id].aborted && !failed(p)) bad('span.status', `tool ${e.id} was cut short by the abort, its span reports ${JSON.stringify(p.status)}`)
      if (!aborted && failed(p) !== threw) bad('span.status', `tool ${e.id} ${threw ? 'failed' : 'succeeded'}, its span reports ${JSON.stringify(p.status)}`)
      if (!aborted && !threw && !failed(p) && c.exec.v !== undefined && p.attributes['gen_ai.tool.call.result'] !== JSON.stringify(c.exec.v)) bad('span.result', `tool ${e.id} returned ${JSON.stringify(c.exec.v)}, its span says ${p.attributes['gen_ai.tool.call.result']}`)
      const parent = chats.find(q => q.n === p.parent)
      const at = chats.findLast(q => q.start < p.start)
      if (parent !== at) bad('span.nesting', `tool ${e.id} belongs to span ${parent.n}, its step has ${at?.n}`)
      // a step that already failed does not wait for its other tools
      if (parent.ended[0] < p.ended[0] && !failed(parent)) bad('span.enclose', `tool ${e.id} outlives the span of its step`)
      const def = o.toolDefs.find(d => d.name === e.name)
      if (p.attributes['gen_ai.tool.call.name'] !== e.name || p.attributes['gen_ai.tool.call.description'] !== def.description) bad('span.attributes', `tool ${e.id}: ${JSON.stringify(p.attributes)}`)
    }
}
