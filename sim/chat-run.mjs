// Runs one scripted conversation against the real library under the simulator and
// judges the recorded history against the reference model.
import { buildStop, contentParts, errText, evalStop, expectCall, foldDeltas, oddValue } from './chat-model.mjs'
import { isChat, isStream, isTel, responseCallOrder, turnPayloads, turnPlan, usageAfter } from './chat-gen.mjs'
import { completeEvents } from './sse.mjs'
import { wireNames } from './unary.mjs'
import { Prng, hashStr } from './prng.mjs'
import { consume, deepEq, observe, safeJson, show } from './world.mjs'

// a JSON copy that survives what JSON has no form for
const big = (k, x) => typeof x === 'bigint' ? `${x}n` : x
const clone = (x) => {
  if (x === undefined) return undefined
  try { const s = JSON.stringify(x, big); return s === undefined ? undefined : JSON.parse(s) }
  catch { return Array.isArray(x) ? x.map(clone) : Object.fromEntries(Object.entries(x).map(([k, v]) => [k, v === x || v?.self === v ? '[circular]' : clone(v)])) }
}
const short = (x, n = 300) => { const s = typeof x === 'string' ? JSON.stringify(x) : safeJson(x); return s.length > n ? `${s.slice(0, n)}…` : s }

export const initialInput = (sc) => {
  if (isChat(sc.api)) return clone(sc.input)
  if (sc.inputStr) return [{ type: 'message', role: 'user', content: sc.input.map(m => m.content).join('|') }]
  return sc.input.map(m => m.type ? clone(m) : { type: 'message', role: m.role, content: m.content })
}

const prepTransform = (kind, canon, k, api) => {
  const mk = t => isChat(api) ? { role: 'user', content: t } : { type: 'message', role: 'user', content: t }
  switch (kind) {
    case 'append': return [...canon, mk(`prep-${k}`)]
    case 'replace': return [mk(`only-${k}`)]
    case 'drop': return canon.slice(-1)
    case 'empty': return []
  }
}

// comparable forms ----------------------------------------------------------
const normMsg = (m) => {
  const o = { role: m.role, content: m.content ?? '' }
  if (m.role === 'assistant' && o.content === null) o.content = ''
  for (const f of ['reasoning', 'reasoning_content', 'tool_call_id', 'name']) if (m[f] !== undefined && m[f] !== null) o[f] = m[f]
  if (m.tool_calls?.length) o.tool_calls = m.tool_calls.map(t => t == null ? null : ({ id: t.id, type: t.type, name: t.function?.name, arguments: t.function?.arguments, ...(t.extra_content ? { xc: t.extra_content } : {}) }))
  return o
}
const normItem = (i) => {
  if (i == null) return i
  if (i.type === 'function_call_output') return { type: i.type, call_id: i.call_id, output: i.output }
  const { ...r } = i
  if (r.type === undefined && r.role) r.type = 'message'
  return r
}
export const normInput = (api, list) => (list ?? []).map(isChat(api) ? normMsg : normItem)

// the model is told what was wrong with its call, not what broke inside the library
const CRASH = /Cannot read propert|is not a function|is not iterable|is not defined/
const errResultOk = (r, want) => r != null && r.isError === true && typeof r.result === 'string' && !CRASH.test(r.result)
  && want.msgs.every(m => r.result.includes(m)) && r.toolCallId === want.toolCallId && r.toolName === want.toolName

const contentOk = (got, call, want) => {
  if (want.result.msgs) return typeof got === 'string' && !CRASH.test(got) && want.result.msgs.every(m => got.includes(m))
  return deepEq(got, want.content)
}

const msgsEq = (api, got, want) => {
  // want may carry {__err: expectation} contents for failed tools
  if (got.length !== want.length) return false
  for (let i = 0; i < got.length; i++) {
    const w = want[i]
    if (w.__own) {
      const { __own, ...own } = w
      if (!deepEq(clone(got[i]), own)) return false
      continue
    }
    const g = isChat(api) ? normMsg(got[i]) : normItem(got[i])
    if (w.__err) {
      const c = isChat(api) ? g.content : g.output
      if (typeof c !== 'string' || !w.__err.every(m => c.includes(m))) return false
      if (isChat(api) ? (g.role !== 'tool' || g.tool_call_id !== w.tool_call_id) : (g.type !== 'function_call_output' || g.call_id !== w.call_id)) return false
      continue
    }
    if (!deepEq(g, isChat(api) ? normMsg(w) : normItem(w))) return false
  }
  return true
}

/** the reference model's prediction of the whole conversation (no abort) */
export const expectConv = (sc, plans) => {
  const api = sc.api
  // what the caller wrote is passed on as it is
  const canon = initialInput(sc).map(m => sc.inputStr ? m : { ...m, __own: true })
  const exp = { requests: [], steps: [], turns: [], terminal: { ok: true }, loose: false, totalUsage: undefined, lastUsage: undefined }
  for (let k = 0; k < sc.turns.length; k++) {
    const turn = sc.turns[k]
    const pr = sc.prepare?.[k]
    if (sc.cbFault === 'prepareStep' && k === (sc.cbFaultAt ?? 0)) { exp.terminal = { err: 'callback', marker: 'prepareStep' }; break }
    const use = pr && pr.ret === 'obj'
    exp.requests.push({
      input: use && pr.input ? prepTransform(pr.input, clone(canon), k, api) : clone(canon),
      model: (use && pr.model) || sc.model,
      toolChoice: (use && pr.toolChoice) || sc.toolChoice,
      canon: clone(canon),
    })
    const t = { k, turn, calls: [], cont: false }
    exp.turns.push(t)
    const fault = turn.fault
    if (fault) {
      const f = fault.k
      if (f === 'cut' && fault.mode !== 'close' && api === 'responses' && plans[k]?.meta && plans[k].meta.maybe === plans[k].meta.total) {
        // everything of this response was on the wire: whether the loop had already moved on decides if the failure matters
        exp.loose = true; t.looseStep = true; t.partial = true
        if (fault.mode === 'hang') exp.terminal = { hang: true }
        else exp.mayFail = `body-${k}`
        break
      }
      if (f === 'hang-headers' || (f === 'cut' && fault.mode === 'hang')) { exp.terminal = { hang: true }; if (f === 'cut') t.partial = true; break }
      if (f === 'reject') { exp.terminal = { err: 'network', marker: `network-${k}` }; break }
      if (f === 'http') { exp.terminal = { err: 'http', status: fault.status, body: fault.body }; break }
      if (f === 'http-broken') { exp.terminal = { err: 'any' }; break }
      if (f === 'null') { exp.terminal = { err: 'empty_body' }; break }
      if (f === 'nonstream') { exp.terminal = { err: 'invalid_body' }; break }
      if (f === 'nochoices') { exp.terminal = { err: 'no_choices' }; break }
      if (f === 'badjson') { exp.terminal = { err: 'json', text: fault.data }; t.partial = true; break }
      if (f === 'sseerror') { exp.terminal = { err: 'remote', body: JSON.stringify(fault.json) }; t.partial = true; break }
      if (f === 'cut' && fault.mode === 'error') { exp.terminal = { err: 'network', marker: `body-${k}` }; t.partial = true; break }
      if (f === 'cut' && fault.mode === 'close' && !isStream(api)) { exp.terminal = { err: 'json' }; break }
    }
    let deltas = turn.deltas
    let finish = turn.finish
    let usage
    let payloads
    if (isStream(api)) {
      payloads = turnPayloads(sc, turn, k)
      let n = payloads.length
      if (fault?.k === 'cut' && fault.mode === 'close') {
        n = plans[k] ? plans[k].meta.complete : n
        t.truncated = n < payloads.length
      }
      t.visible = n
      payloads = payloads.slice(0, n)
      if (isChat(api)) {
        deltas = payloads.filter(x => x.d).map(x => x.d)
        finish = payloads.some(x => x.fin) ? (turn.finish ?? 'other') : 'other'
        usage = usageAfter(turn, turnPayloads(sc, turn, k), n)
      }
      else if (t.truncated && !payloads.some(x => x.term)) {
        for (const x of payloads) if (x.item) canon.push(clone(x.item))
        exp.loose = true
        t.noStep = true
        break
      }
      t.payloads = payloads
    }
    const fold = foldDeltas(turn, deltas)
    t.fold = fold
    if (!isStream(api) || !isChat(api)) {
      const u = turn.usage ?? (isChat(api) ? { p: 1, c: 1 } : null)
      usage = u ? { inputTokens: u.p, outputTokens: u.c, totalTokens: u.p + u.c + (u.x ?? 0) } : undefined
    }
    // the assistant's contribution
    let order
    if (isChat(api)) {
      order = isStream(api) ? [...fold.order].sort((a, b) => a - b) : turn.calls.map((_, i) => i)
      const parts = !isStream(api) && turn.parts && fold.hasText ? contentParts(turn, fold.text) : undefined
      if (parts) { t.content = parts; fold.text = parts.filter(x => x.type === 'text').map(x => x.text).join('\n') }
      const m = { role: 'assistant', content: parts ?? fold.text }
      if (fold.reasoning !== undefined) m[turn.field] = fold.reasoning
      if (order.length) m.tool_calls = order.map(i => ({ id: turn.calls[i].id, type: 'function', function: { name: turn.calls[i].noName ? undefined : turn.calls[i].name, arguments: turn.calls[i].noArgs ? undefined : (fold.args.get(i) ?? '') }, ...(turn.calls[i].xc ? { extra_content: turn.calls[i].xc } : {}) }))
      canon.push(m)
    }
    else {
      order = responseCallOrder(turn)
      for (const x of payloads) if (x.item) canon.push(clone(x.item))
    }
    const terminal = isChat(api) ? 'completed' : turn.terminal
    const rawCalls = order.map(i => ({ args: turn.calls[i].noArgs ? '' : (fold.args.get(i) ?? ''), toolCallId: turn.calls[i].id, toolCallType: 'function', toolName: turn.calls[i].noName ? '' : turn.calls[i].name }))
    const text = isChat(api) ? fold.text : fold.plain
    const step = {
      finishReason: isChat(api) ? finish : terminal === 'failed' ? 'error' : terminal === 'incomplete' ? 'length' : (rawCalls.length > 0 ? 'tool-calls' : 'stop'),
      text,
      toolCalls: rawCalls,
      toolResults: [],
      usage,
    }
    t.rawCalls = rawCalls
    t.canon = clone(canon)
    t.order = order
    t.step = step
    if (t.truncated && order.length > 0) { exp.loose = true; t.looseStep = true; break }
    if (sc.cbFault === 'stopWhen' && terminal === 'completed') { exp.terminal = { err: 'callback', marker: 'stopWhen' }; t.noStep = true; break }
    t.stop = terminal !== 'completed' ? true : evalStop(sc.stop, [...exp.steps, step])
    if (!t.stop && order.length > 0) {
      t.calls = order.map(i => expectCall(turn.calls[i], fold.args.get(i) ?? '', sc.tools, api))
      if (t.calls.some(c => c.fatal)) { exp.terminal = { err: 'tool-fatal', calls: t.calls.filter(c => c.fatal).map(c => ({ reason: c.fatal, id: c.fatalId ?? c.id })) }; t.noStep = true; break }
      step.toolCalls = t.calls.map(c => c.toolCall)
      step.toolResults = t.calls.map(c => c.result)
      for (const c of t.calls) {
        const e = c.result.msgs
        if (isChat(api)) canon.push({ role: 'tool', tool_call_id: c.id, content: c.content, ...(e ? { __err: e } : {}) })
        else canon.push({ type: 'function_call_output', call_id: c.id, output: c.content, ...(e ? { __err: e } : {}) })
      }
      t.cont = true
    }
    exp.steps.push(step)
    exp.lastUsage = usage
    if (usage) exp.totalUsage = exp.totalUsage ? { inputTokens: exp.totalUsage.inputTokens + usage.inputTokens, outputTokens: exp.totalUsage.outputTokens + usage.outputTokens, totalTokens: exp.totalUsage.totalTokens + usage.totalTokens } : usage
    if (sc.cbFault === 'onStepFinish' && !isStream(api)) { exp.terminal = { err: 'callback', marker: 'onStepFinish' }; t.noNext = true; break }
    if (!t.cont) break
  }
  if (sc.cbFault === 'onFinish' && exp.terminal.ok) exp.terminal = { err: 'callback', marker: 'onFinish' }
  exp.canon = canon
  return exp
}

const mkThrown = (k, id) => {
  if (k === 'null') return null
  if (k === 'undef') return undefined
  if (k === 'string') return errText(k, id)
  if (k === 'custom') { class Custom extends Error {} ; return new Custom(errText(k, id)) }
  return new Error(errText(k, id))
}

// ---- running ---------------------------------------------------------------

const deepFreeze = (x) => { if (x && typeof x === 'object' && !Object.isFrozen(x)) { Object.freeze(x); Object.values(x).forEach(deepFreeze) } return x }
/** what the tools' schemas describe, and its strict form: objects closed, everything else as it is */
const toolSchema = extra => deepFreeze({ type: 'object', description: 'd', properties: { firstName: { type: 'string', maxLength: 9, default: '' }, where: { type: 'object', properties: { maxItems: { type: 'integer' }, deep: { type: 'object', properties: { any: true, nul: { type: ['string', 'null'] } }, ...extra } }, required: [], ...extra }, snake_name: { anyOf: [{ type: 'null' }] } }, required: ['firstName'], ...extra })
const TOOL_SCHEMA = toolSchema({})
const TOOL_SCHEMA_STRICT = toolSchema({ additionalProperties: false })
export const stdSchema = (val, name, async_, hook) => ({
  '~standard': {
    version: 1,
    vendor: 'sim',
    jsonSchema: { input: () => TOOL_SCHEMA, output: () => ({ type: 'object' }) },
    validate: (input) => {
      hook?.(input)
      if (input?.boom) { const e = new Error('validator exploded'); if (async_) return Promise.reject(e); throw e }
      const r = input?.bad ? { issues: [{ message: 'bad input' }], ...(input.bad === 'partial' ? { value: input } : {}) } : { value: val === 'null' ? null : val === 'transform' ? { ...input, validatedBy: name } : val === 'bigint' ? { ...input, big: 7n } : input }
      return async_ ? Promise.resolve(r) : r
    },
  },
})

export const startConv = async (w, L, sc, tag = '', opts = {}) => {
  const lib = isTel(sc.api) ? L.telemetry : L.xsai
  const o = { sc, tag, reqs: [], calls: {}, prep: [], stops: [], onEvent: [], onStepFinish: [], onFinish: [], plans: [], w, errs: {}, from: w.seq, hookLog: [] }
  const T = tag ? `${tag}:` : ''
  const odd = sc.oddErr && { v: { undefined: undefined, null: null, empty: '', false: false }[sc.oddErr] }
  const mkErr = (m) => { const e = odd && !m.startsWith('body') ? odd.v : new TypeError(`sim ${m}`); o.errs[m] = e; return e }
  const handOver = (x) => { if (!x.odd) return clone(x.v); w.fault(`value.${x.odd}`); return oddValue(x.odd, clone(x.v)) }
  const callRec = id => o.calls[id] ??= { pre: [], val: [], exec: [], post: [], done: [] }
  const byId = {}
  for (const t of sc.turns) for (const c of t.calls) byId[c.id] = c

  // abort
  let ac
  if (sc.abort) {
    ac = new AbortController()
    const reason = sc.abort.reason === 'error' ? new Error('user abort') : sc.abort.reason === 'string' ? 'stop it' : sc.abort.reason === 'object' ? { why: 'user' } : sc.abort.reason === 'null' ? null : undefined
    const fire = () => {
      o.abortS = w.log('abort', { tag })
      w.fault('abort')
      if (reason === undefined) ac.abort()
      else ac.abort(reason)
      o.abortReason = ac.signal.reason
    }
    if (sc.abort.after < 0) fire()
    else {
      const phase = sc.abort.phase
      let seen = 0
      // a synchronous abort comes from inside the caller's own code, in the middle of whatever the library is doing
      o.phaseHit = (p) => { if (p === phase && ++seen === sc.abort.nth && sc.abort.sync && o.abortS === undefined) { w.unpost(o.abortAction); o.abortSync = p; fire() } }
      const base = w.steps
      o.abortAction = w.post('abort', `${T}abort`, fire, () => phase ? seen >= sc.abort.nth : w.steps - base >= sc.abort.after, true)
    }
  }
  o.ac = ac
  const phase = p => o.phaseHit?.(p)

  const handler = (req) => {
    const k = o.reqs.length
    o.reqs.push(req)
    phase('req')
    const turn = sc.turns[k]
    let plan
    if (!turn) {
      o.extraRequest = true
      plan = isStream(sc.api)
        ? { status: 200, pieces: [new TextEncoder().encode('data: [DONE]\n\n')], end: 'close' }
        : { status: 200, pieces: [new TextEncoder().encode(JSON.stringify({ choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content: 'extra' } }], usage: { prompt_tokens: 0, completion_tokens: 0, total_tokens: 0 } }))], end: 'close' }
    }
    else { plan = turnPlan(sc, turn, k, mkErr) }
    // only where the call goes on, or fails, without waiting for the end of this response
    if (turn?.linger && !turn.fault) {
      const t = expectConv(sc, o.plans).turns[k]
      if (t?.cont || t?.noStep) { plan.end = 'hang'; plan.faultName = 'net.linger' }
    }
    if (plan.faultName) w.fault(plan.faultName)
    plan.onHeaders = () => phase('headers')
    plan.onEnd = () => phase('body-end')
    plan.onPiece = (last) => { phase('piece'); if (last) phase('last-piece') }
    o.plans[k] = plan
    req.bytes = (plan.pieces ?? []).reduce((n, x) => n + x.length, 0)
    w.probe(`pieces.${(plan.pieces?.length ?? 0) > 8 ? 'many' : 'few'}`)
    return plan
  }
  let fetchOpt
  if (sc.globalFetch) w.globalHandler = handler
  else {
    const f = w.makeFetch(handler)
    fetchOpt = (input, init) => {
      if (init?.signal?.aborted) w.log('fetch.dead', { tag })
      return f(input, init)
    }
  }

  // tools
  const tools = []
  const toolDefs = []
  // with a shared tool box the same tool objects serve several conversations at once
  const box = opts.toolBox
  const route = { has: id => id in byId }
  if (box) box.routes.push(route)
  for (const [ti, t] of sc.tools.entries()) {
    const executeOwn = (input, options) => {
      const id = options?.toolCallId
      const c = byId[id]
      const rec = callRec(id)
      const e = { name: t.name, input: clone(input), s: w.log('tool.exec', { tag, id, name: t.name }), signal: options?.abortSignal, messages: clone(options?.messages), at: w.now }
      rec.exec.push(e)
      w.probe('tool.exec')
      phase('tool')
      opts.onExec?.(t, input, options)
      aliasProbe(o, options?.messages, 'the messages a tool receives')
      if (!c) return 'unknown call'
      const finish = () => { rec.done.push(w.log('tool.done', { tag, id })) }
      if (c.mutateInput && input && typeof input === 'object') { input.__mutated = true }
      switch (c.exec.k) {
        case 'ret': finish(); return handOver(c.exec)
        case 'throw': finish(); w.fault('tool.throw'); throw mkThrown(c.exec.e, id)
        case 'hang':
          w.fault('tool.hang-until-abort')
          return new Promise((_, rej) => {
            const s = options?.abortSignal ?? ac?.signal
            if (!options?.abortSignal) { o.noSignalToTool = true }
            if (s?.aborted) { finish(); rej(s.reason); return }
            s?.addEventListener('abort', () => { finish(); rej(s.reason) }, { once: true })
          })
        default:
          return new Promise((res, rej) => {
            const a = w.post('tool', `${T}tool ${id}`, () => {
              finish()
              if (c.exec.k === 'reject') { w.fault('tool.reject'); rej(mkThrown(c.exec.e, id)) }
              else res(handOver(c.exec))
            })
            if (c.aware && options?.abortSignal?.aborted) { w.unpost(a); finish(); rej(options.abortSignal.reason); return }
            if (c.aware && options?.abortSignal) {
              options.abortSignal.addEventListener('abort', () => { if (!a.gone) { w.unpost(a); finish(); w.probe('tool.aborted'); rec.aborted = true; rej(options.abortSignal.reason) } }, { once: true })
            }
          })
      }
    }
    route[ti] = executeOwn
    const execute = box
      ? (input, options) => {
          const r = box.routes.find(r => r.has(options?.toolCallId))
          if (!r) { box.stray = (box.stray ?? 0) + 1; return 'stray' }
          return r[ti](input, options)
        }
      : function (input, options) {
        if (this?.function?.name !== t.name) o.thisLost = 'execute'
        return executeOwn(input, options)
      }
    const validate = t.val === 'none' ? undefined : function (input) {
      if (!box && this?.function?.name !== t.name) o.thisLost = 'validate'
      if (input?.bad || input?.boom) w.fault('tool.invalid-input')
      const go = () => stdSchema(t.val, t.name, false)['~standard'].validate(input)
      return t.valAsync ? w.later('validate', `${T}validate ${t.name}`, go) : go()
    }
    if (t.def) {
      const given = { name: t.name, ...(t.noDesc ? {} : { description: t.emptyDesc ? '' : `d ${t.name}` }), ...(t.strict === undefined ? {} : { strict: t.strict }) }
      const parameters = t.def === 'rawTool' ? TOOL_SCHEMA : stdSchema(t.val, t.name, t.valAsync)
      tools.push(await lib[t.def]({ ...given, parameters, execute }))
      toolDefs.push({ ...given, strict: t.strict ?? true, parameters: t.strict === false ? TOOL_SCHEMA : TOOL_SCHEMA_STRICT })
      continue
    }
    const fn = { name: t.name, description: `d ${t.name}`, parameters: { type: 'object', properties: { firstName: { type: 'string', maxLength: 9 }, snake_name: { anyOf: [{ type: 'null' }] } }, additionalProperties: false }, ...(t.name.charCodeAt(t.name.length - 1) % 2 ? { strict: true } : {}) }
    toolDefs.push(clone(fn))
    tools.push({ type: 'function', function: fn, execute, ...(validate ? { validate } : {}) })
  }
  if (box) { if (box.tools) tools.push(...box.tools); else box.tools = tools }
  if (box) box.defs ??= toolDefs
  o.toolDefs = box?.defs ?? toolDefs
  // tool() installs its own validator; 'none' tools never fail there because genCall avoids it for rawTool only
  const anyHook = k => sc.turns.some(t => t.calls.some(c => c[k]))
  const hookFault = (kind, h, id) => { w.fault(`hook.${kind}-throw`); throw mkThrown(h.e, `${kind}-${id}`) }
  const preToolCall = anyHook('pre') || sc.alwaysHooks
    ? (tc, options) => {
        const rec = callRec(tc.toolCallId)
        rec.pre.push({ tc: clone(tc), id: options?.toolCallId, s: w.log('hook.pre', { tag, id: tc.toolCallId }) })
        phase('hook')
        const h = byId[tc.toolCallId]?.pre
        if (!h) return
        const go = () => {
          switch (h.k) {
            case 'args': return { ...tc, args: h.v }
            case 'name': return { ...tc, toolName: h.v }
            case 'result': return { args: 'synthetic', result: handOver(h), toolCallId: tc.toolCallId, toolName: tc.toolName }
            case 'throw': return hookFault('pre', h, tc.toolCallId)
            case 'badid': w.fault('hook.bad-id'); return { ...tc, toolCallId: `${tc.toolCallId}-x` }
            case 'badid-result': w.fault('hook.bad-id'); return { args: 'synthetic', result: 'supplied', toolCallId: `${tc.toolCallId}-x`, toolName: tc.toolName }
          }
        }
        return h.async ? w.later('hook', `${T}pre ${tc.toolCallId}`, go) : go()
      }
    : undefined
  const postToolCall = anyHook('post') || sc.alwaysHooks
    ? (tr, options) => {
        const rec = callRec(tr.toolCallId)
        rec.post.push({ tr: clone(tr), id: options?.toolCallId, s: w.log('hook.post', { tag, id: tr.toolCallId }) })
        phase('hook')
        const h = byId[tr.toolCallId]?.post
        if (!h) return
        const go = () => {
          switch (h.k) {
            case 'override': return { ...tr, args: 'post', isError: undefined, result: handOver(h) }
            case 'throw': return hookFault('post', h, tr.toolCallId)
            case 'badid': w.fault('hook.bad-id'); return { ...tr, toolCallId: `${tr.toolCallId}-x` }
          }
        }
        return h.async ? w.later('hook', `${T}post ${tr.toolCallId}`, go) : go()
      }
    : undefined

  const cbErr = name => { w.fault(`callback.${name}-throw`); const e = odd ? odd.v : new Error(`cb ${name}`); o.errs[name] = e; return e }
  const stopFn = buildStop(sc.stop, isChat(sc.api) ? lib : L.responsesApi)
  const stopWhen = sc.cbFault === 'stopWhen'
    ? () => { throw cbErr('stopWhen') }
    : stopFn && ((ctx) => {
        const r = stopFn(ctx)
        o.stops.push({ n: ctx.steps.length, last: ctx.step, same: deepEq(clone(ctx.steps.at(-1)), clone(ctx.step)), toolCalls: clone(ctx.step.toolCalls), text: ctx.step.text, input: clone(ctx.input), r, s: w.log('stop', { tag, n: ctx.steps.length, r }) })
        return r
      })

  const garbage = isChat(sc.api) ? { role: 'user', content: 'GARBAGE' } : { type: 'message', role: 'user', content: 'GARBAGE' }
  const prepareStep = sc.prepare || sc.cbFault === 'prepareStep'
    ? (a) => {
        const k = o.prep.length
        o.prep.push({ stepNumber: a.stepNumber, model: a.model, input: clone(a.input), steps: clone(a.steps), s: w.log('prepare', { tag, n: k }) })
        aliasProbe(o, a.input, 'the input prepareStep receives')
        phase('hook')
        if (sc.cbFault === 'prepareStep' && k === (sc.cbFaultAt ?? 0)) {
          if (sc.cbFaultAsync) return w.later('hook', `${T}prepare ${k}`, () => { throw cbErr('prepareStep') })
          throw cbErr('prepareStep')
        }
        const pr = sc.prepare?.[k]
        if (!pr) return
        const go = () => {
          const canon = clone(a.input)
          const ret = pr.ret === 'undef' ? undefined : { ...(pr.model ? { model: pr.model } : {}), ...(pr.toolChoice ? { toolChoice: pr.toolChoice } : {}), ...(pr.input ? { input: prepTransform(pr.input, canon, k, sc.api) } : {}) }
          const vandal = () => {
            w.fault('hook.prepare-mutates')
            try { a.input.push(clone(garbage)); if (a.input[0]) a.input[0].content = 'VANDAL'; a.steps.push({ text: 'fake' }); if (a.steps[0]) { a.steps[0].text = 'VANDAL'; a.steps[0].toolCalls?.push({}) } } catch {}
            try { for (const r of a.steps[0]?.toolResults ?? []) { for (const x of [r.args, r.result]) if (x !== null && typeof x === 'object' && clonable(x)) x.VANDAL = 1; r.toolName = 'VANDAL' } a.steps[0]?.toolResults?.pop() } catch {}
          }
          if (pr.mutate) vandal()
          if (pr.mutateLater) {
            w.post('hook', `${T}late-mutate ${k}`, () => {
              vandal()
              try { ret?.input?.push(clone(garbage)); if (ret?.input?.[0]) ret.input[0].content = 'VANDAL' } catch {}
            })
          }
          return ret
        }
        return pr.async ? w.later('hook', `${T}prepare ${k}`, go) : go()
      }
    : undefined

  const userInput = opts.input !== undefined ? opts.input : isChat(sc.api) ? (sc.helpers ? build(L.xsai.message, clone(sc.input)) : clone(sc.input)) : sc.inputStr ? initialInput(sc)[0].content : initialInput(sc)
  const options = {
    ...clone(sc.extra),
    baseURL: sc.base,
    model: sc.model,
    ...(isChat(sc.api) ? { messages: userInput } : { input: userInput }),
    ...(sc.noTools === 'absent' ? {} : { tools: box ? box.tools : tools }),
    ...opts.addOptions,
  }
  if (sc.apiKey !== undefined) options.apiKey = sc.apiKey
  if (opts.headers) options.headers = opts.headers
  else if (sc.headers) options.headers = sc.headersKind === 'Headers' ? new Headers(sc.headers) : clone(sc.headers)
  if (fetchOpt) options.fetch = fetchOpt
  if (sc.toolChoice) options.toolChoice = sc.toolChoice
  if (sc.streamOptions) options.streamOptions = clone(sc.streamOptions)
  if (ac) options.abortSignal = ac.signal
  if (preToolCall) options.preToolCall = preToolCall
  if (postToolCall) options.postToolCall = postToolCall
  if (stopWhen) options.stopWhen = stopWhen
  if (prepareStep) options.prepareStep = prepareStep
  if (isTel(sc.api)) options.telemetry = { attributes: { 'sim.tag': tag || 'x' } }
  if (isStream(sc.api) && sc.cb?.onEvent) {
    options.onEvent = (e) => {
      o.onEvent.push(clone(e))
      w.log('onEvent', { tag, type: e.type })
      phase('event')
      for (const c of Object.values(o.cons)) if (c.inCb !== undefined && o.onEvent.length >= c.inCb) c.cancelNow?.()
      if (sc.cbFault === 'onEvent' && o.onEvent.length === (sc.cbFaultAt ?? 1)) throw cbErr('onEvent')
    }
  }
  if (sc.cb?.onStepFinish || sc.cbFault === 'onStepFinish') {
    options.onStepFinish = (s) => {
      const rec = { step: clone(s), s: w.log('onStepFinish', { tag }) }
      o.onStepFinish.push(rec)
      phase('stepFinish')
      if (sc.cbFault === 'onStepFinish') throw cbErr('onStepFinish')
      if (sc.cb?.stepAsync) return w.later('hook', `${T}stepFinish`, () => { rec.done = w.log('onStepFinish.done', { tag }) })
    }
  }
  if (isStream(sc.api) && (sc.cb?.onFinish || sc.cbFault === 'onFinish')) {
    options.onFinish = (s) => {
      o.onFinish.push({ step: clone(s), s: w.log('onFinish', { tag }) })
      if (sc.cbFault === 'onFinish') {
        if (sc.cb?.finishAsync) return w.later('hook', `${T}finish`, () => { throw cbErr('onFinish') })
        throw cbErr('onFinish')
      }
      if (sc.cb?.finishAsync) return w.later('hook', `${T}finish`, () => { w.log('onFinish.done', { tag }) })
    }
  }
  o.options = options
  opts.beforeCall?.(options)
  if (sc.warm && !box && !isTel(sc.api)) await warmUp(w, L, lib, sc, options)
  o.optionsBefore = snapshotOptions(options)
  o.cons = {}
  o.proms = {}
  o.startS = w.log('call', { tag, api: sc.api })
  let res
  try {
    if (sc.api === 'generateText' || sc.api === 'tel.generateText') {
      o.proms.result = observe(w, `${T}result`, opts.call ? opts.call(lib, options) : lib.generateText(options))
    }
    else if (opts.call) { res = await opts.call(lib, options) }
    else {
      res = sc.api === 'responses' ? L.responsesApi.responses(options) : lib.streamText(options)
    }
  }
  catch (e) { o.syncThrow = e; w.log('sync-throw', { err: show(e) }); return o }
  if (res) {
    o.res = res
    o.missing = []
    for (const [n, p] of Object.entries({ text: res.textStream, reasoning: res.reasoningTextStream, event: res.eventStream, full: res.fullStream })) {
      if (typeof p?.getReader !== 'function') { o.missing.push(n); continue }
      o.cons[n] = consume(w, `${T}${n}`, p, opts.consumers?.[n] ?? sc.consumers[n])
    }
    const names = sc.api === 'responses' ? ['steps', 'input', 'usage', 'totalUsage'] : ['steps', 'messages', 'usage', 'totalUsage']
    const watch = opts.watch ?? names
    for (const n of names) {
      if (typeof res[n]?.then !== 'function') o.missing.push(n)
      else if (watch.includes(n)) o.proms[n] = observe(w, `${T}${n}`, res[n])
    }
    o.promNames = names
    w.onQuiescent.push(() => { promptness(o); if (o.phaseHit && Object.values(o.cons).some(c => c.items.length > (c._seen ?? 0))) { for (const c of Object.values(o.cons)) c._seen = c.items.length; phase('item') } })
  }
  w.onQuiescent.push(() => {
    if (!o.phaseHit) return
    const d = o.reqs.reduce((n, r) => n + (r.body?.delivered ?? 0), 0)
    if (d > (o._d ?? 0)) { o._d = d; phase('chunk') }
  })
  return o
}

/** the conversation as its author writes it with the message helpers */
const build = (m, list) => m.messages(...list.map((x) => {
  const parts = c => Array.isArray(c) ? c.map(p => p.type === 'text' && Object.keys(p).length === 2 ? m.textPart(p.text) : p.type === 'image_url' && Object.keys(p.image_url).length === 1 ? m.imagePart(p.image_url.url) : p) : c
  const n = Object.keys(x).length
  if (x.role === 'system' && n === 2) return m.system(parts(x.content))
  if (x.role === 'user' && n === 2) return m.user(parts(x.content))
  if (x.role === 'assistant' && n === 2 && x.tool_calls?.length) return m.assistant(x.tool_calls.length === 1 ? x.tool_calls[0] : x.tool_calls)
  if (x.role === 'assistant' && n === 2 && x.content != null) return m.assistant(parts(x.content))
  if (x.role === 'tool' && n === 3) return m.tool(parts(x.content), { id: x.tool_call_id, type: 'function', function: { name: 'f', arguments: '{}' } })
  return x
}))

/** user code must never be handed the very objects of the caller's own conversation */
const aliasProbe = (o, given, what) => {
  const own = isChat(o.sc.api) ? o.options.messages : o.options.input
  if (!Array.isArray(own) || !Array.isArray(given)) return
  const mine = new Set()
  const walk = (x, f) => {
    if (x === null || typeof x !== 'object' || f(x)) return
    for (const v of Object.values(x)) walk(v, f)
  }
  walk(own, (x) => { if (mine.has(x)) return true; mine.add(x) })
  let hit = false
  const seen = new Set()
  walk(given, (x) => { if (seen.has(x)) return true; seen.add(x); if (mine.has(x)) hit = true })
  if (hit && !o.aliased) o.aliased = what
}

/** what cannot be cloned may be shared with the callbacks that receive it */
const clonable = (x) => { try { structuredClone(x); return true } catch { return false } }

/** an earlier call made with the very same objects, which hold other values at that time; its fetch fails at once */
const warmUp = async (w, L, lib, sc, options) => {
  const undo = []
  const seen = new Set()
  const alter = (x) => {
    if (x === null || typeof x !== 'object' || Object.isFrozen(x) || seen.has(x)) return
    seen.add(x)
    if (x instanceof Headers) {
      x.set('x-warm', '1')
      undo.push(() => x.delete('x-warm'))
    }
    else if (Array.isArray(x)) { for (const v of x) alter(v) }
    else {
      const desc = Object.getOwnPropertyDescriptors(x)
      if (Object.getPrototypeOf(x) !== Object.prototype || Object.values(desc).some(d => !d.writable || !d.configurable)) return
      for (const [k, v] of Object.entries(x)) {
        if (typeof v === 'string' && k !== 'role' && k !== 'type') x[k] = `${v}~`
        else if (typeof v === 'boolean') x[k] = !v
        else if (typeof v === 'number') x[k] = v + 1
        else alter(v)
      }
      x.warm_key = 'warm'
      undo.push(() => {
        for (const k of Object.keys(x)) delete x[k]
        Object.defineProperties(x, desc)
      })
    }
  }
  const own = { ...sc.extra, ...(sc.streamOptions ? { streamOptions: 1 } : {}), headers: 1, toolChoice: 1, messages: 1, input: 1 }
  for (const k of Object.keys(own)) alter(options[k])
  for (const t of options.tools ?? []) alter(t.function)
  w.fault('warm-call')
  const quiet = p => Promise.resolve(p).catch(() => {})
  const pick = Object.fromEntries([...Object.keys(own), 'baseURL', 'model', 'tools', 'apiKey'].filter(k => k in options).map(k => [k, options[k]]))
  const r = (() => {
    try { return (sc.api === 'responses' ? L.responsesApi.responses : lib[sc.api])({ ...pick, fetch: () => Promise.reject(new Error('warm')) }) }
    catch {}
  })()
  await quiet(r)
  if (r && typeof r.then !== 'function') await Promise.all(['steps', 'messages', 'input', 'usage', 'totalUsage'].map(k => quiet(r[k])))
  for (const f of undo.reverse()) f()
}

const snapshotOptions = (options) => {
  const { fetch, abortSignal, tools, ...r } = options
  if (r.headers instanceof Headers) r.headers = [...r.headers]
  return { json: safeJson(r), keys: Object.keys(options), tools: tools?.map(t => ({ keys: Object.keys(t), json: safeJson(t) })) }
}
export const optionsUnchanged = (o) => {
  if (o.optionsBefore == null) return true
  const now = snapshotOptions(o.options)
  return deepEq(now, o.optionsBefore)
}

/** text/reasoning the model expects to be visible once the bytes so far have arrived */
const visibleNow = (o, which) => {
  let out = ''
  for (let k = 0; k < o.reqs.length; k++) {
    const turn = o.sc.turns[k]
    const plan = o.plans[k]
    if (!turn || !plan?.meta) break
    const b = o.reqs[k].body
    if (!b) break
    let n = completeEvents(plan.meta, b.delivered)
    if (b.state === 'closed') n = plan.meta.complete
    n = Math.min(n, plan.stopAt, plan.payloads.length)
    for (const x of plan.payloads.slice(0, n)) {
      if (isChat(o.sc.api)) {
        if (which === 'text') out += x.d?.t ?? x.d?.f ?? ''
        else out += x.d?.r ?? ''
      }
      else { out += (which === 'text' ? x.t : x.r) ?? '' }
    }
  }
  return out
}
const rawNow = (o) => {
  const out = []
  for (let k = 0; k < o.reqs.length; k++) {
    const plan = o.plans[k]
    if (!o.sc.turns[k] || !plan?.meta) break
    const b = o.reqs[k].body
    if (!b) break
    let n = completeEvents(plan.meta, b.delivered)
    if (b.state === 'closed') n = plan.meta.complete
    out.push(...plan.payloads.slice(0, Math.min(n, plan.stopAt, plan.payloads.length)).map(x => x.json))
  }
  return out
}

const promptness = (o) => {
  if (o.late || o.abortS !== undefined || o.sc.cbFault) return
  for (const which of ['text', 'reasoning']) {
    const c = o.cons[which]
    if (!c || c.mode !== 'read' || c.state !== 'open') continue
    // once an error is on the wire, queued data may legitimately be dropped
    if (o.reqs.some((r, k) => o.plans[k]?.meta && (r.body?.state === 'errored' || (o.plans[k].stopAt !== Infinity && r.body && r.body.delivered > 0 && completeEvents(o.plans[k].meta, r.body.delivered) > o.plans[k].stopAt)))) continue
    const want = visibleNow(o, which)
    const got = c.items.join('')
    if (got.length < want.length) {
      o.late = { which, want, got, s: o.w.seq }
    }
  }
}

// ---- judging ---------------------------------------------------------------

/**
 * Judge one finished conversation. Returns [{rule, msg}], rule = '<group>.<name>'.
 */
export const judgeConv = (o, L) => {
  const { sc, w } = o
  const api = sc.api
  const out = []
  const bad = (rule, msg) => out.push({ rule, msg: `[${o.tag || api}] ${msg}` })
  const exp = expectConv(sc, o.plans)
  o.exp = exp
  if (exp.turns.at(-1)?.cont && exp.turns.length === sc.turns.length && exp.terminal.ok) throw new Error('scenario: the script ends inside the loop')
  const aborted = o.abortS !== undefined
  const S = isStream(api)

  if (o.syncThrow !== undefined) {
    bad('settle.sync-throw', `call threw synchronously: ${show(o.syncThrow)}`)
    return out
  }

  // ---------- terminal outcome -------------------------------------------
  const proms = Object.values(o.proms)
  const pend = proms.filter(p => p.state === 'pending')
  for (const p of pend) bad('settle.pending', `${p.name} never settles`)
  const states = new Set(proms.map(p => p.state))
  if (proms.length > 1 && states.size > 1) bad('settle.mixed', `result promises disagree: ${proms.map(p => `${p.name}=${p.state}`).join(', ')}`)
  let outcome = pend.length ? 'pending' : proms.some(p => p.state === 'rejected') ? 'rejected' : 'fulfilled'
  if (proms.length === 0) outcome = 'unknown'
  const error = proms.find(p => p.state === 'rejected')?.error
  for (const p of proms) if (p.state === 'rejected' && p.error !== error) bad('settle.reasons', `promises reject with different reasons: ${show(p.error)} / ${show(error)}`)
  if (S) {
    for (const [n, c] of Object.entries(o.cons)) {
      if (c.state === 'open' && c.mode !== 'ignore') { bad('settle.stream-open', `${n} stream never ends (outcome ${outcome})`); continue }
      if (c.mode === 'ignore' || c.state === 'cancelled') {
        if (c.cancelResult instanceof Error && outcome === 'fulfilled') bad('consumers.cancel-failed', `cancelling ${n} failed: ${show(c.cancelResult)}`)
        continue
      }
      if (c.state === 'closed' && outcome === 'rejected') bad('settle.stream-vs-promise', `${n} stream closed normally but the call failed with ${show(error)}`)
      if (c.state === 'errored' && outcome === 'fulfilled') bad('settle.stream-vs-promise', `${n} stream errored (${show(c.error)}) but the promises resolved`)
      if (c.state === 'errored' && outcome === 'rejected' && c.error !== error) bad('settle.reasons', `${n} stream error ${show(c.error)} differs from promise reason ${show(error)}`)
    }
    if (o.options.onFinish) {
      if (outcome !== 'pending' && o.onFinish.length !== 1) bad('settle.onFinish-count', `onFinish called ${o.onFinish.length} times (outcome ${outcome})`)
    }
    if (sc.cb?.finishAsync && o.onFinish.length && !sc.cbFault && outcome === 'fulfilled') {
      const doneS = w.history.find(e => e.k === 'onFinish.done' && e.tag === o.tag)?.s
      const firstSettle = Math.min(...proms.map(p => p.s))
      if (doneS === undefined || firstSettle < doneS) bad('settle.onFinish-order', 'promises resolved before the asynchronous onFinish completed')
    }
  }
  if (o.extraRequest) bad('loop.extra-request', `more model requests than the conversation calls for (${o.reqs.length} > ${exp.requests.length})`)

  // ---------- abort ------------------------------------------------------
  const after = aborted ? w.history.filter(e => e.s > o.abortS && e.tag === o.tag) : []
  if (aborted) {
    for (const r of o.reqs) if (r.s > o.abortS) bad('abort.new-request', `request ${r.n} was sent after the abort`)
    for (const e of after) if (e.k === 'tool.exec') bad('abort.new-tool', `tool ${e.name} (${e.id}) was started after the abort`)
    // work that is begun only to be refused: between the last response and the abort nothing was pending that could still lead to a next step
    const lastReq = o.reqs.at(-1)
    const dead = after.concat(o.tag || !sc.globalFetch ? [] : w.history.filter(e => e.s > o.abortS && e.k === 'fetch.preaborted'))
    const between = ks => w.history.some(e => e.tag === o.tag && ks.includes(e.k) && e.s > lastReq.s && e.s < o.abortS)
    if (lastReq && !['event', 'stepFinish'].includes(o.abortSync)) {
      if (dead.some(e => e.k === 'fetch.dead' || e.k === 'fetch.preaborted') && !between(['prepare', 'onStepFinish'])) bad('abort.new-attempt', 'another model request was attempted after the abort')
      if (after.some(e => e.k === 'prepare') && !between(['onStepFinish'])) bad('abort.new-prepare', 'prepareStep was called for another step after the abort')
    }
    if (outcome === 'rejected' && error !== o.abortReason && !(o.abortReason === null && error instanceof Error && /abort/i.test(error.message))) {
      // a failure that had already happened may win; anything else must carry the abort reason
      const other = failureMatches(exp, error, o, L)
      // a turn that was cut short without a marker: what it left to do is not predicted, only that an outstanding response fails with the reason
      const spare = exp.loose && lastReq?.body && lastReq.body.state !== 'aborted' && lastReq.phase !== 'aborted'
      if (other !== true && !spare) bad('abort.reason', `rejected with ${show(error)} instead of the abort reason ${show(o.abortReason)}`)
    }
    if (outcome === 'fulfilled') {
      const last = o.reqs.at(-1)
      const open = o.reqs.length === 0 || last.phase === 'aborted' || last.body?.state === 'aborted'
      if (open) bad('abort.swallowed', 'the call resolved although it was aborted before the response was complete')
      // the last step was put to the stop condition only after the abort: its response had not been taken in when the abort came
      else if (o.abortSync !== 'event' && o.stops.some(x => x.s > o.abortS)) bad('abort.swallowed', 'the call resolved although it was aborted before its last response had been taken in')
      else if (o.abortSync === 'body-end' && isChat(api)) bad('abort.swallowed', 'the call resolved although it was aborted before its last response had been taken in')
    }
    if (o.noSignalToTool) bad('abort.signal', 'a tool was executed without the abort signal')
    for (const [id, c] of Object.entries(o.calls)) for (const e of c.exec) if (e.signal !== o.ac.signal) bad('abort.signal', `tool call ${id} did not receive the abort signal`)
  }
  for (const r of o.reqs) if (o.ac && r.signal !== o.ac.signal) bad('abort.signal', `request ${r.n} was sent without the abort signal`)

  // ---------- expected terminal ------------------------------------------
  const hung = exp.terminal.hang && !aborted
  if (!aborted && !hung && !exp.loose && outcome !== 'pending' && outcome !== 'unknown') {
    if (exp.terminal.ok && outcome === 'rejected') bad('errors.spurious', `call failed with ${show(error)} although nothing went wrong`)
    if (!exp.terminal.ok && outcome === 'fulfilled') bad('errors.swallowed', `call completed normally despite ${JSON.stringify(exp.terminal)}`)
    if (!exp.terminal.ok && outcome === 'rejected') {
      const m = failureMatches(exp, error, o, L)
      if (m !== true) bad('errors.type', `${m}; terminal ${JSON.stringify(exp.terminal)}`)
    }
  }

  // ---------- requests ---------------------------------------------------
  const nreq = o.reqs.length
  if (!aborted && !exp.loose && nreq < exp.requests.length) bad('loop.missing-request', `expected ${exp.requests.length} model requests, saw ${nreq}`)
  for (let i = 0; i < Math.min(nreq, exp.requests.length); i++) {
    const r = o.reqs[i]
    const e = exp.requests[i]
    const b = r.json
    if (!b) { bad('request.body', `request ${i} has no JSON body`); continue }
    const got = isChat(api) ? b.messages : b.input
    if (!Array.isArray(got) || !msgsEq(api, got, e.input)) bad(sc.prepare ? 'prepare.input' : 'history.request', `request ${i} carries ${short(normInput(api, Array.isArray(got) ? got : []), 700)} expected ${short(e.input, 700)}`)
    if (!isChat(api) && Array.isArray(got)) {
      // (the provider may repeat its own)
      const ids = got.map(x => x?.id).filter((x, j, a) => x != null && !(sc.sameIds && /^item-\d+$/.test(x) && a.indexOf(x) < j))
      if (new Set(ids).size !== ids.length) bad('history.request', `request ${i} carries two items under one id: ${ids}`)
    }
    if (b.model !== e.model) bad(sc.prepare ? 'prepare.model' : 'request.model', `request ${i} model ${b.model}, expected ${e.model}`)
    if (b.tool_choice !== e.toolChoice) bad(sc.prepare ? 'prepare.toolChoice' : 'request.tool_choice', `request ${i} tool_choice ${b.tool_choice}, expected ${e.toolChoice}`)
    const want = { stream: S }
    Object.assign(want, wireNames(sc.extra))
    if (sc.streamOptions) want.stream_options = isChat(api) ? { include_usage: sc.streamOptions.includeUsage } : { include_obfuscation: sc.streamOptions.includeObfuscation }
    for (const [k, v] of Object.entries(want)) if (!deepEq(b[k], v)) bad('request.options', `request ${i} ${k}=${short(b[k])} expected ${short(v)}`)
    const allowed = new Set([...Object.keys(want), 'messages', 'input', 'model', 'tools', 'tool_choice'])
    for (const k of Object.keys(b)) if (!allowed.has(k)) bad('request.leak', `request ${i} body carries unexpected field ${k}=${short(b[k])}`)
    const toolsOk = sc.noTools ? b.tools === undefined || (sc.noTools === 'empty' && deepEq(b.tools, [])) : Array.isArray(b.tools) && b.tools.length === sc.tools.length && b.tools.every((t, j) => (isChat(api) ? t.function?.name : t.name) === sc.tools[j].name && t.type === 'function' && !('execute' in t))
    if (!toolsOk) bad('request.tools', `request ${i} tools ${short(b.tools)}`)
    else if (!sc.noTools && o.toolDefs) {
      for (let j = 0; j < sc.tools.length; j++) {
        const def = o.toolDefs[j]
        const t = isChat(api) ? b.tools[j].function : b.tools[j]
        for (const k of ['description', 'parameters']) if (!deepEq(t[k] ?? undefined, def[k])) bad('request.tools', `request ${i} tool ${def.name} ${k} ${short(t[k])}, expected ${short(def[k])}`)
        if (isChat(api) ? t.strict !== def.strict : t.strict !== (def.strict ?? true)) bad('request.tools', `request ${i} tool ${def.name} strict ${t.strict}, the caller gave ${def.strict}`)
      }
    }
    const h = r.headers
    const given = Object.fromEntries(Object.entries(sc.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v]))
    const wantAuth = given.authorization ?? (sc.apiKey !== undefined ? `Bearer ${sc.apiKey}` : undefined)
    if (h.authorization !== wantAuth) bad('request.auth', `request ${i} authorization ${h.authorization}, expected ${wantAuth}`)
    for (const [k, v] of Object.entries(given)) if (h[k] !== v) bad('request.headers', `request ${i} header ${k}=${h[k]}, expected ${v}`)
    if (h['content-type'] !== (given['content-type'] ?? 'application/json')) bad('request.headers', `request ${i} content-type ${h['content-type']}`)
    const url = `${sc.base.replace(/\/?$/, '/')}${isChat(api) ? 'chat/completions' : 'responses'}`
    if (r.url !== url) bad('request.url', `request ${i} url ${r.url}, expected ${url}`)
    if (r.method !== 'POST') bad('request.method', `request ${i} method ${r.method}`)
    if (r.via !== (sc.globalFetch ? 'global' : 'option')) bad('request.fetch', `request ${i} bypassed the supplied fetch`)
  }

  // ---------- tools ------------------------------------------------------
  for (const t of exp.turns) {
    const reached = t.k < nreq
    for (let j = 0; j < t.turn.calls.length; j++) {
      const call = t.turn.calls[j]
      const rec = o.calls[call.id] ?? { pre: [], exec: [], post: [], done: [] }
      const e = t.calls.find(c => c.id === call.id)
      if (rec.exec.length > 1) bad('tools.executed-twice', `tool call ${call.id} executed ${rec.exec.length} times`)
      if (exp.loose && t.looseStep) continue
      if (!e) {
        if (rec.exec.length > 0) bad(t.stop ? 'loop.tool-after-stop' : 'tools.unexpected', `tool call ${call.id} was executed although ${t.stop ? 'the loop stops at its step' : 'its step never completed'}`)
        if (rec.pre.length > 0 && t.stop) bad('loop.hook-after-stop', `pre hook ran for ${call.id} although the loop stops at its step`)
        continue
      }
      const fatalTurn = t.calls.some(c => c.fatal)
      if (rec.exec.length > 0) {
        if (!e.exec) bad('contain.executed-invalid', `tool call ${call.id} was executed with ${short(rec.exec[0].input)} although it must not run`)
        else {
          if (rec.exec[0].name !== e.exec.name) bad('tools.wrong-tool', `tool call ${call.id} ran ${rec.exec[0].name}, expected ${e.exec.name}`)
          if (!deepEq(rec.exec[0].input, e.exec.input)) bad('contain.input', `tool call ${call.id} received ${short(rec.exec[0].input)}, expected ${short(e.exec.input)}`)
        }
      }
      else if (e.exec && !aborted && reached && !fatalTurn) { bad('tools.not-executed', `tool call ${call.id} was never executed`) }
      if (!aborted && !fatalTurn && reached) {
        if (o.options.preToolCall && rec.pre.length !== (e.pre ? 1 : 0)) bad('contain.pre-count', `pre hook ran ${rec.pre.length} times for ${call.id}`)
        if (o.options.postToolCall && rec.post.length !== (e.post ? 1 : 0)) bad('contain.post-count', `post hook ran ${rec.post.length} times for ${call.id}, expected ${e.post ? 1 : 0}`)
      }
      if (rec.pre[0] && !deepEq(rec.pre[0].tc, t.rawCalls.find(c => c.toolCallId === call.id))) bad('contain.pre-arg', `pre hook of ${call.id} saw ${short(rec.pre[0].tc)}`)
      if (rec.pre[0] && rec.exec[0] && rec.pre[0].s > rec.exec[0].s) bad('contain.pre-late', `pre hook of ${call.id} ran after execute`)
      if (rec.post[0] && rec.exec[0] && !aborted && e.exec && call.exec.k !== 'throw' && call.exec.k !== 'reject' && (!call.exec.odd || call.exec.odd === 'fn') && !deepEq(rec.post[0].tr, { args: e.exec.input, result: call.exec.v, toolCallId: call.id, toolName: e.toolCall.toolName })) bad('contain.post-arg', `post hook of ${call.id} saw ${short(rec.post[0].tr)}`)
      // the next request waits for every tool
      const next = o.reqs[t.k + 1]
      if (next && rec.exec.length > 0 && (rec.done.length === 0 || rec.done[0] > next.s)) bad('tools.request-before-results', `request ${t.k + 1} was sent before tool call ${call.id} finished`)
      if (rec.exec[0] && o.reqs[t.k]) {
        const body = o.reqs[t.k].body
        if (isChat(api) && S && body && body.state === 'open') bad('tools.early', `tool call ${call.id} ran before its response was complete`)
        if (isChat(api)) {
          const m = rec.exec[0].messages
          const lastA = m?.findLast?.(x => x.role === 'assistant')
          if (!m || !lastA?.tool_calls?.some(x => x?.id === call.id)) bad('tools.messages', `tool call ${call.id} did not get the conversation including its own call`)
        }
      }
    }
    // concurrency: all executions of a step are started before any asynchronous one is settled (only when nothing asynchronous precedes execute)
    if (!aborted && t.cont && t.calls.length > 1) {
      const direct = t.calls.filter(c => c.exec).map(c => ({ c, call: t.turn.calls.find(x => x.id === c.id), tool: sc.tools.find(x => x.name === c.exec.name) }))
        .filter(x => !(x.call.pre?.async) && !(x.tool.valAsync && x.tool.val !== 'none' && !x.tool.def))
      const starts = direct.map(x => o.calls[x.c.id]?.exec[0]?.s).filter(x => x !== undefined)
      const asyncDone = direct.filter(x => x.call.exec.k === 'async' || x.call.exec.k === 'reject').map(x => o.calls[x.c.id]?.done[0]).filter(x => x !== undefined)
      if (starts.length && asyncDone.length && Math.min(...asyncDone) < Math.max(...starts)) bad('tools.sequential', `tool calls of step ${t.k} did not start concurrently`)
    }
  }

  // ---------- stop condition --------------------------------------------
  for (const st of o.stops) {
    if (!st.same) bad('loop.stop-context', `stop condition saw steps whose last entry is not the current step`)
    const t = exp.turns[st.n - 1]
    if (t?.rawCalls && !exp.loose && !deepEq(st.toolCalls, t.rawCalls)) bad('loop.stop-context', `stop condition at step ${st.n} saw tool calls ${short(st.toolCalls)}, expected ${short(t.rawCalls)}`)
    if (t?.rawCalls && !exp.loose && (st.text ?? '') !== (t.step.text ?? '')) bad('loop.stop-context', `stop condition at step ${st.n} saw text ${short(st.text)}, expected ${short(t.step.text)}`)
  }

  for (const st of o.stops) {
    const t = exp.turns[st.n - 1]
    if (t?.canon && !exp.loose && (!Array.isArray(st.input) || !msgsEq(api, st.input, t.canon))) bad('loop.stop-context', `stop condition at step ${st.n} saw the conversation ${short(Array.isArray(st.input) ? normInput(api, st.input) : st.input, 600)}, expected ${short(t.canon, 600)}`)
  }

  // ---------- prepareStep ------------------------------------------------
  o.prep.forEach((p, k) => {
    const e = exp.requests[k]
    if (!e) return
    if (p.stepNumber !== k) bad('prepare.stepNumber', `prepareStep call ${k} got stepNumber ${p.stepNumber}`)
    if (p.model !== sc.model) bad('prepare.base-model', `prepareStep call ${k} saw model ${p.model}, expected the call's ${sc.model}`)
    if (!msgsEq(api, p.input, e.canon)) bad('prepare.saw-input', `prepareStep call ${k} saw ${short(normInput(api, p.input), 600)}, expected ${short(e.canon, 600)}`)
    if (p.steps.length !== k) bad('prepare.saw-steps', `prepareStep call ${k} saw ${p.steps.length} steps`)
    else p.steps.forEach((s, i) => { const m = stepDiff(s, exp.steps[i], api); if (m) bad('prepare.saw-steps', `prepareStep call ${k} step ${i}: ${m}`) })
  })
  const wantPrep = exp.requests.length + (exp.terminal.marker === 'prepareStep' ? 1 : 0)
  if (sc.prepare && !aborted && !exp.loose && o.prep.length !== wantPrep) bad('prepare.count', `prepareStep ran ${o.prep.length} times, expected ${wantPrep}`)

  // ---------- every documented output is there ----------------------------
  for (const n of o.missing ?? []) bad({ text: 'deliver', reasoning: 'deliver', full: 'deliver', event: 'events', steps: 'loop', messages: 'history', input: 'history', usage: 'usage', totalUsage: 'usage' }[n].concat('.missing'), `the result has no ${n}`)
  if (!S && o.proms.result?.state === 'fulfilled') for (const [n, rule] of [['steps', 'loop'], ['messages', 'history']]) if (!Array.isArray(o.proms.result.value[n])) bad(`${rule}.missing`, `the result has no ${n}`)

  // ---------- steps ------------------------------------------------------
  const steps = S ? (o.proms.steps?.state === 'fulfilled' ? o.proms.steps.value : undefined) : (o.proms.result?.state === 'fulfilled' ? o.proms.result.value.steps : undefined)
  if (steps) {
    if (!aborted && !exp.loose) {
      if (steps.length !== exp.steps.length) bad('loop.step-count', `returned ${steps.length} steps, expected ${exp.steps.length}`)
    }
    steps.forEach((s, i) => {
      const e = exp.steps[i]
      if (!e) {
        // an abort can keep a tool from running whose outcome would have ended the call with an error: the step then completes
        const spared = aborted && exp.terminal.err === 'tool-fatal' && i === exp.steps.length
        if (!exp.loose && !spared) bad('loop.step-count', `unexpected step ${i}`)
        return
      }
      const last = i === steps.length - 1
      const m = stepDiff(s, e, api, aborted && last)
      if (m) bad(m.startsWith('usage') ? 'usage.step' : m.startsWith('toolResults') ? 'tools.results' : m.startsWith('toolCalls') ? 'tools.calls' : m.startsWith('text') ? 'deliver.step-text' : 'loop.step', `step ${i}: ${m}`)
    })
  }
  // onStepFinish
  if (o.options.onStepFinish && !exp.loose) {
    const n = o.onStepFinish.length
    if (steps && n !== steps.length) bad('loop.onStepFinish-count', `onStepFinish ran ${n} times for ${steps.length} steps`)
    if (!aborted && !sc.cbFault && outcome !== 'pending' && n !== exp.steps.length) bad('loop.onStepFinish-count', `onStepFinish ran ${n} times, expected ${exp.steps.length}`)
    if (!S && sc.cb?.stepAsync && !sc.cbFault) {
      // the unstreamed call waits for its step callback
      o.onStepFinish.forEach((r, i) => {
        const next = o.reqs[i + 1]?.s ?? (i === o.onStepFinish.length - 1 && outcome === 'fulfilled' ? o.proms.result.s : undefined)
        if (next !== undefined && !(r.done < next)) bad('loop.onStepFinish-order', `the call went on before the step callback of step ${i} was done`)
      })
    }
    o.onStepFinish.forEach((r, i) => {
      const e = exp.steps[i]
      if (e) { const m = stepDiff(r.step, e, api, aborted); if (m) bad('loop.onStepFinish-arg', `onStepFinish ${i}: ${m}`) }
    })
  }
  if (S && o.onFinish.length === 1 && !exp.loose && !aborted && (!sc.cbFault || sc.cbFault === 'onFinish')) {
    const e = exp.steps.at(-1)
    const g = o.onFinish[0].step
    if (e === undefined ? g !== undefined : (g === undefined || stepDiff(g, e, api))) bad('settle.onFinish-arg', `onFinish got ${short(g)}, expected ${short(e)}`)
  }

  // ---------- conversation result ---------------------------------------
  const conv = S ? (o.proms.messages ?? o.proms.input) : undefined
  const convList = S ? (conv?.state === 'fulfilled' ? conv.value : undefined) : o.proms.result?.state === 'fulfilled' ? o.proms.result.value.messages : undefined
  if (convList && !aborted && (!exp.loose || exp.turns.at(-1)?.noStep)) {
    if (!msgsEq(api, clone(convList), exp.canon)) bad('history.result', `conversation is ${short(normInput(api, clone(convList)), 900)}, expected ${short(exp.canon, 900)}`)
  }
  if (!S && o.proms.result?.state === 'fulfilled' && !aborted && exp.terminal.ok) {
    const r = o.proms.result.value
    const e = exp.steps.at(-1)
    const lastTurn = exp.turns.at(-1)
    if ((r.text ?? '') !== (e.text ?? '')) bad('deliver.result-text', `text ${short(r.text)}, expected ${short(e.text)}`)
    if (r.finishReason !== e.finishReason) bad('loop.finishReason', `finishReason ${r.finishReason}, expected ${e.finishReason}`)
    if ((r.reasoningText ?? undefined) !== lastTurn.fold.reasoning) bad('deliver.result-reasoning', `reasoningText ${short(r.reasoningText)}, expected ${short(lastTurn.fold.reasoning)}`)
    const m = stepDiff({ ...r }, e, api)
    if (m) bad('loop.result', `result: ${m}`)
    if (!deepEq(clone(r.totalUsage), exp.totalUsage)) bad('usage.total', `totalUsage ${short(r.totalUsage)}, expected ${short(exp.totalUsage)}`)
    if (!deepEq(clone(r.usage), exp.lastUsage)) bad('usage.last', `usage ${short(r.usage)}, expected ${short(exp.lastUsage)}`)
  }
  if (S && o.proms.usage?.state === 'fulfilled' && !aborted && !exp.loose) {
    if (!deepEq(clone(o.proms.usage.value), exp.lastUsage)) bad('usage.last', `usage ${short(o.proms.usage.value)}, expected ${short(exp.lastUsage)}`)
    if (o.proms.totalUsage && !deepEq(clone(o.proms.totalUsage.value), exp.totalUsage)) bad('usage.total', `totalUsage ${short(o.proms.totalUsage.value)}, expected ${short(exp.totalUsage)}`)
  }

  // ---------- delivered streams -----------------------------------------
  if (S) {
    if (o.late) bad('deliver.late', `${o.late.which} had only ${short(o.late.got)} although ${short(o.late.want)} had arrived completely`)
    const okRun = outcome === 'fulfilled' && !aborted
    for (const which of ['text', 'reasoning']) {
      const c = o.cons[which]
      if (!c || c.mode === 'ignore') continue
      const want = visibleNow(o, which)
      const got = c.items.join('')
      const seen = c.items.every(x => typeof x === 'string')
      if (!seen) bad(`deliver.${which}`, `${which} stream carried non-strings`)
      if (c.state === 'closed' && okRun) { if (got !== want) bad(`deliver.${which}`, `${which} stream delivered ${short(got)}, provider sent ${short(want)}`) }
      else if (!want.startsWith(got)) bad(`deliver.${which}`, `${which} stream delivered ${short(got)}, not a prefix of what the provider sent: ${short(want)}`)
    }
    const f = o.cons.full
    if (f && f.mode !== 'ignore') {
      const want = rawNow(o)
      const got = f.items
      if (f.state === 'closed' && okRun && got.length !== want.length) bad('deliver.full', `full stream delivered ${got.length} chunks, provider sent ${want.length}`)
      else if (got.length > want.length) bad('deliver.full', `full stream delivered more chunks than the provider sent`)
      for (let i = 0; i < Math.min(got.length, want.length); i++) if (!deepEq(clone(got[i]), want[i])) { bad('deliver.full', `chunk ${i} was ${short(got[i])}, provider sent ${short(want[i])}`); break }
    }
    judgeEvents(o, exp, okRun, bad)
    // an abort may let the call end with the steps it has: those were opened, closed and recorded alike
    const list = o.proms.steps?.state === 'fulfilled' ? o.proms.steps.value : undefined
    if (aborted && outcome === 'fulfilled' && !exp.loose && Array.isArray(list)) {
      for (const [name, evs] of [['event stream', o.cons.event?.state === 'closed' ? o.cons.event.items : null], ['onEvent', o.options.onEvent ? o.onEvent : null]]) {
        if (!evs) continue
        const n = t => evs.filter(e => e.type === t).length
        if (n('step.start') !== list.length || n('step.done') !== list.length) bad('events.step-count', `${name}: ${n('step.start')} steps were opened and ${n('step.done')} closed, the call recorded ${list.length}`)
      }
      if (o.options.onStepFinish && o.onStepFinish.length !== list.length) bad('loop.onStepFinish', `the step callback saw ${o.onStepFinish.length} of ${list.length} steps`)
    }
  }

  // ---------- isolation ---------------------------------------------------
  if (!optionsUnchanged(o)) bad('isolate.options', `the caller's options were modified: now ${short(snapshotOptions(o.options).json, 500)} before ${short(o.optionsBefore.json, 500)}`)
  if (convList) {
    const ui = isChat(api) ? o.options.messages : o.options.input
    aliasProbe(o, convList, 'the returned conversation')
    if (convList === ui) bad('isolate.alias', 'the returned conversation is the caller\'s own array')
  }
  if (o.aliased && !sc.inputStr) bad('isolate.alias', `${o.aliased} shares objects with the caller's own conversation`)
  // ---------- connections ---------------------------------------------------
  if (outcome === 'fulfilled' || outcome === 'rejected') {
    for (const r of o.reqs) if (r.body && r.body.state === 'open') bad('bodies.open', `response body of request ${o.reqs.indexOf(r)} was left open (neither consumed nor cancelled; ${r.body.delivered}/${r.body.pieces} chunks)`)
  }
  return out
}

const stepDiff = (s, e, api, loose = false) => {
  if (s == null || e == null) return `missing (${short(s)})`
  if ((s.text ?? '') !== (e.text ?? '')) return `text ${short(s.text)}, expected ${short(e.text)}`
  if ((s.finishReason ?? null) !== (e.finishReason ?? null)) return `finishReason ${s.finishReason}, expected ${e.finishReason}`
  if (!deepEq(clone(s.usage), e.usage)) return `usage ${short(s.usage)}, expected ${short(e.usage)}`
  if (loose) {
    if (s.toolCalls.length !== e.toolCalls.length) return `toolCalls ${short(s.toolCalls)}, expected ${short(e.toolCalls)}`
    for (let i = 0; i < s.toolResults.length; i++) {
      const r = s.toolResults[i]
      const x = e.toolResults[i]
      if (x && r.toolCallId !== x.toolCallId) return `toolResults[${i}] id ${r.toolCallId}, expected ${x.toolCallId}`
      if (x && !r.isError && !x.msgs && !deepEq(clone(r.result), x.result)) return `toolResults[${i}] ${short(r)}, expected ${short(x)}`
    }
    return null
  }
  if (!deepEq(clone(s.toolCalls), e.toolCalls)) return `toolCalls ${short(s.toolCalls)}, expected ${short(e.toolCalls)}`
  if (s.toolResults.length !== e.toolResults.length) return `toolResults ${short(s.toolResults)}, expected ${short(e.toolResults)}`
  for (let i = 0; i < e.toolResults.length; i++) {
    const r = s.toolResults[i]
    const x = e.toolResults[i]
    if (x.msgs) {
      if (!errResultOk(r, x)) return `toolResults[${i}] ${short(r)}, expected an error result mentioning ${short(x.msgs)}`
      if (!deepEq(clone(r.args), x.args)) return `toolResults[${i}] args ${short(r.args)}, expected ${short(x.args)}`
    }
    else if (!deepEq(clone(r), clone(x))) return `toolResults[${i}] ${short(r)}, expected ${short(x)}`
  }
  return null
}
void contentOk

export const failureMatches = (exp, error, o, L) => {
  const E = L.xsai
  const t = exp.terminal
  if (exp.mayFail && error === o.errs[exp.mayFail]) return true
  if (t.ok || t.hang) return `rejected with ${show(error)}`
  switch (t.err) {
    case 'any': return error instanceof Error ? true : 'no error object'
    case 'network': return error === o.errs[t.marker] ? true : `rejected with ${show(error)} instead of the transport's own error`
    case 'callback': return error === o.errs[t.marker] ? true : `rejected with ${show(error)} instead of the callback's error`
    case 'http':
      if (!E.APICallError.isInstance(error)) return `rejected with ${show(error)}, not an APICallError`
      if (error.statusCode !== t.status) return `statusCode ${error.statusCode}, expected ${t.status}`
      if (error.responseBody !== t.body) return `responseBody ${short(error.responseBody)}, expected ${short(t.body)}`
      if (error.response?.status !== t.status) return `response ${show(error.response)}`
      for (const [k, v] of [['responseHeaders', Object.fromEntries(error.response.headers)], ['statusText', error.response.statusText], ['url', error.response.url]])
        if (!deepEq(error[k], v)) return `${k} ${short(error[k])}, the response has ${short(v)}`
      return labelled(E.APICallError, 'api_call_error', error)
    case 'empty_body':
    case 'invalid_body':
    case 'no_choices':
      if (!E.InvalidResponseError.isInstance(error)) return `rejected with ${show(error)}, not an InvalidResponseError`
      if (error.reason !== t.err) return `reason ${error.reason}, expected ${t.err}`
      if (t.err === 'invalid_body' && (error.contentType !== 'text/plain' || error.body !== 'i am text')) return `body ${short(error.body)} of type ${short(error.contentType)}, expected "i am text" of type "text/plain"`
      if (t.err !== 'no_choices' && error.response?.status !== 200) return `response ${show(error.response)}`
      if (t.err === 'no_choices' && (typeof error.responseBody !== 'string' || typeof safeParse(error.responseBody) === 'string')) return `responseBody ${short(error.responseBody)}`
      return labelled(E.InvalidResponseError, 'invalid_response', error)
    case 'json':
      if (!E.JSONParseError.isInstance(error)) return `rejected with ${show(error)}, not a JSONParseError`
      if (t.text !== undefined && error.text !== t.text) return `error text ${short(error.text)}, expected ${short(t.text)}`
      if (!(error.cause instanceof SyntaxError)) return `cause ${show(error.cause)}, expected what JSON.parse threw`
      return labelled(E.JSONParseError, 'json_parse_error', error)
    case 'remote':
      if (!E.RemoteAPIError.isInstance(error)) return `rejected with ${show(error)}, not a RemoteAPIError`
      if (!deepEq(safeParse(error.responseBody), safeParse(t.body))) return `responseBody ${short(error.responseBody)}, expected ${short(t.body)}`
      return labelled(E.RemoteAPIError, 'remote_api_error', error)
    case 'tool-fatal':
      if (!E.InvalidToolCallError.isInstance(error)) return `rejected with ${show(error)}, not an InvalidToolCallError`
      // several calls of the step may be fatal: the first to fail decides
      if (!t.calls.some(c => c.reason === error.reason && (error.toolCall?.id ?? error.toolCall?.toolCallId) === c.id)) return `reason ${error.reason}, call ${short(error.toolCall)}, expected one of ${short(t.calls)}`
      return labelled(E.InvalidToolCallError, 'invalid_tool_call', error)
  }
  return 'unknown expectation'
}
/** every error of the library says what it is by its code and its name */
const labelled = (cls, code, error) => error.code !== code ? `code ${error.code}, expected ${code}` : error.name !== cls.name ? `name ${error.name}, expected ${cls.name}` : error instanceof Error && typeof error.message === 'string' && error.message !== '' ? true : 'no message'
const safeParse = (s) => { try { return JSON.parse(s) } catch { return s } }

/** grammar of the typed event stream */
const judgeEvents = (o, exp, okRun, bad) => {
  const { sc } = o
  const c = o.cons.event
  const lists = []
  if (c && c.mode !== 'ignore') lists.push(['event stream', c.items.map(clone), c.state === 'closed' && okRun])
  if (o.options.onEvent) lists.push(['onEvent', o.onEvent, okRun])
  if (lists.length === 2) {
    const [a, b] = [lists[0][1], lists[1][1]]
    const n = Math.min(a.length, b.length)
    if (a.length > b.length) bad('events.callback', `event stream carried ${a.length} events, the callback saw ${b.length}`)
    if (lists[0][2] && a.length !== b.length) bad('events.callback', `event stream carried ${a.length} events, the callback saw ${b.length}`)
    for (let i = 0; i < n; i++) if (!deepEq(a[i], b[i])) { bad('events.callback', `event ${i} differs: stream ${short(a[i])}, callback ${short(b[i])}`); break }
  }
  for (const [name, evs, complete] of lists) {
    const err = eventGrammar(evs, sc, exp, complete, o)
    for (const m of err) bad(m.rule, `${name}: ${m.msg}`)
  }
}

const eventGrammar = (evs, sc, exp, complete, o) => {
  const errs = []
  const bad = (rule, msg) => { if (errs.length < 6) errs.push({ rule, msg }) }
  let k = -1
  let st = null
  const close = () => {
    if (!st) return
    for (const kind of ['text', 'reasoning']) if (st[kind].open) bad('events.unclosed', `step ${k}: ${kind} block not closed before step end`)
  }
  for (let i = 0; i < evs.length; i++) {
    const e = evs[i]
    if (e.type === 'step.start') {
      if (st) { bad('events.nesting', `step.start inside step ${k}`) }
      k++
      st = { text: { open: false, buf: '', all: '', n: 0 }, reasoning: { open: false, buf: '', all: '', n: 0 }, starts: [], dones: [], results: [], argDeltas: '', done: false }
      continue
    }
    if (!st) { bad('events.outside', `${e.type} outside any step (index ${i})`); return errs }
    const t = exp.turns[k]
    const m = /^(text|reasoning)\.(start|delta|done)$/.exec(e.type)
    if (m) {
      const b = st[m[1]]
      if (m[2] === 'start') {
        if (b.open) bad('events.double-start', `second ${e.type} while open`)
        b.open = true; b.buf = ''; b.n++
        if (isChat(sc.api) && b.n > 1) bad('events.double-start', `${e.type} twice in step ${k}`)
      }
      else if (m[2] === 'delta') {
        if (!b.open) bad('events.delta-without-start', `${e.type} without start in step ${k}`)
        b.buf += e.delta; b.all += e.delta
      }
      else {
        if (!b.open) bad('events.done-without-start', `${e.type} without start in step ${k}`)
        if (e.content !== b.buf) bad('events.done-content', `${e.type} content ${short(e.content)} but deltas were ${short(b.buf)}`)
        b.open = false
      }
      continue
    }
    switch (e.type) {
      case 'tool-call.start': st.starts.push({ toolCallId: e.toolCallId, toolName: e.toolName }); if (st.dones.some(d => d.toolCallId === e.toolCallId)) bad('events.order', 'tool-call.start after its done'); break
      case 'tool-call.delta': {
        if (st.starts.length === 0) bad('events.delta-without-start', 'tool-call.delta before any tool-call.start')
        if (typeof e.delta !== 'string') bad('events.delta', `tool-call.delta carries ${short(e.delta)}`)
        st.argDeltas += e.delta
        break
      }
      case 'tool-call.done':
        if (!st.starts.some(s => s.toolCallId === e.toolCallId)) bad('events.done-without-start', `tool-call.done for ${e.toolCallId} without start`)
        if (st.dones.some(d => d.toolCallId === e.toolCallId)) bad('events.double-done', `tool-call.done twice for ${e.toolCallId}`)
        st.dones.push(e)
        break
      case 'tool-result.done':
        if (!st.dones.some(d => d.toolCallId === e.toolCallId)) bad('events.result-before-call', `tool-result.done for ${e.toolCallId} before its tool-call.done`)
        if (st.results.some(d => d.toolCallId === e.toolCallId)) bad('events.double-result', `tool-result.done twice for ${e.toolCallId}`)
        st.results.push(e)
        break
      case 'step.done': {
        close()
        if (t && !exp.loose) {
          const f = t.fold
          if (f) {
            const wantText = f.text
            if (st.text.all !== wantText) bad('events.text', `step ${k} text events ${short(st.text.all)}, expected ${short(wantText)}`)
            if (st.reasoning.all !== (f.reasoning ?? '')) bad('events.reasoning', `step ${k} reasoning events ${short(st.reasoning.all)}, expected ${short(f.reasoning ?? '')}`)
            if (f.reasoning !== undefined && st.reasoning.n === 0) bad('events.reasoning', `step ${k} has reasoning but no reasoning events`)
          }
          if (t.step && !deepEq(e.usage, t.step.usage)) bad('events.usage', `step ${k} step.done usage ${short(e.usage)}, expected ${short(t.step.usage)}`)
          if (t.rawCalls) {
            const order = isChat(sc.api) ? t.fold.order : t.order
            const wantStarts = order.map(i => ({ toolCallId: t.turn.calls[i].id, toolName: t.turn.calls[i].noName ? undefined : t.turn.calls[i].name }))
            if (!deepEq(clone(st.starts), clone(wantStarts))) bad('events.tool-starts', `step ${k} tool-call.start ${short(st.starts)}, expected ${short(wantStarts)}`)
            const wantDone = t.rawCalls.map(c => ({ ...c, type: 'tool-call.done' }))
            if (!deepEq(st.dones, wantDone)) bad('events.tool-dones', `step ${k} tool-call.done ${short(st.dones)}, expected ${short(wantDone)}`)
            const wantArgs = isChat(sc.api)
              ? (t.payloads ?? []).flatMap(x => (x.d?.c ?? []).map(y => y.a ?? '')).join('')
              : (t.payloads ?? []).map(x => x.ca ?? '').join('')
            if (st.argDeltas !== wantArgs) bad('events.tool-args', `step ${k} tool-call deltas ${short(st.argDeltas)}, expected ${short(wantArgs)}`)
            if (o.abortS === undefined) {
              const wantRes = t.calls.filter(() => t.cont).map(c => c.id)
              if (!deepEq(st.results.map(r => r.toolCallId), wantRes)) bad('events.tool-results', `step ${k} tool-result.done ${short(st.results.map(r => r.toolCallId))}, expected ${short(wantRes)}`)
              else {
                st.results.forEach((r, j) => {
                  const x = t.calls[j].result
                  const { type: _t, ...g } = r
                  if (x.msgs ? !errResultOk(g, x) : !deepEq(g, clone(x))) bad('events.tool-results', `step ${k} tool-result.done ${short(g)}, expected ${short(x)}`)
                })
              }
            }
          }
        }
        st = null
        break
      }
      case 'error': break
      default: bad('events.unknown', `unknown event type ${e.type}`)
    }
  }
  if (complete && !exp.loose) {
    if (st) bad('events.unterminated', `step ${k} has no step.done`)
    if (k + 1 !== exp.steps.length) bad('events.step-count', `${k + 1} steps in the event stream, expected ${exp.steps.length}`)
  }
  // incomplete tail must be a prefix
  if (st && exp.turns[k] && !exp.loose) {
    const t = exp.turns[k]
    const fold = t.fold ?? foldDeltas(t.turn, t.turn.deltas)
    if (!fold.text.startsWith(st.text.all)) bad('events.text', `step ${k} text events ${short(st.text.all)} not a prefix of ${short(fold.text)}`)
    if (!(fold.reasoning ?? '').startsWith(st.reasoning.all)) bad('events.reasoning', `step ${k} reasoning events not a prefix`)
  }
  return errs
}

export const convSig = sc => hashStr(safeJson(sc))
void Prng
