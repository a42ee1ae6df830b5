// Generator of conversation scenarios (plain JSON) and their rendering on the wire.
import { Prng } from './prng.mjs'
import { genWire, plainWire, wirePlan } from './sse.mjs'
import { genExtras } from './unary.mjs'
import { contentParts, foldDeltas, genCall, genDeltas, genText, genUsage, STOPS } from './chat-model.mjs'

export const STREAM_APIS = ['streamText', 'tel.streamText', 'responses']
export const isStream = api => STREAM_APIS.includes(api)
export const isChat = api => api !== 'responses'
export const isTel = api => api.startsWith('tel.')

/**
 * profile: {apis, turns:[min,max], callsP, maxCalls, toolFaults, hooks, faults:[[w,kind]..], faultP,
 *   abortP, consumers:'all'|'mixed', prepareP, plainWire, usageP, ...}
 */
export const genConv = (rng, profile = {}) => {
  const p = { turns: [1, 4], callsP: 0.7, maxCalls: 3, toolFaults: 0.15, hooks: false, faultP: 0, abortP: 0, consumers: 'all', prepareP: 0, usageP: 0.8, ...profile }
  const api = rng.pick(p.apis)
  const sc = { api, model: `model-${rng.int(9)}` }
  sc.input = []
  if (rng.bool(0.5)) sc.input.push({ role: 'system', content: genText(rng, 2) })
  const nmsg = 1 + rng.int(2)
  for (let i = 0; i < nmsg; i++)
    sc.input.push({ role: 'user', content: rng.bool(0.15) && isChat(api) ? [{ type: 'text', text: genText(rng, 3) }] : genText(rng, 3) })
  if (api === 'responses' && rng.bool(0.3)) sc.inputStr = true
  if (api === 'responses' && rng.bool(0.1)) sc.sameIds = true
  if (!sc.inputStr && rng.bool(p.historyP ?? 0.2)) genHistory(rng, sc)
  const nt = 1 + rng.int(3)
  sc.tools = ['t_a', 't_b', 't_c'].slice(0, nt).map(name => ({ name, val: rng.wpick([[3, 'none'], [2, 'pass'], [2, 'transform'], [p.bigintP ?? 0.2, 'bigint'], [0.15, 'null']]), valAsync: rng.bool() }))
  if (rng.bool(0.3)) sc.tools.reverse()
  if (rng.bool(p.toolDefP ?? 0.2)) {
    for (const t of sc.tools) {
      t.def = rng.pick(['tool', 'defineTool', 'rawTool'])
      if (rng.bool(0.5)) t.strict = rng.bool()
      if (rng.bool(0.2)) t.noDesc = true
      else if (rng.bool(0.06)) t.emptyDesc = true
    }
  }
  for (const t of sc.tools) {
    if (t.def === 'rawTool') t.val = 'none'
    else if (t.def && t.val === 'none') t.val = 'pass'
  }
  // messages built with the helpers of the library
  if (isChat(api) && rng.bool(p.helpersP ?? 0.15)) sc.helpers = true
  if (p.tools) sc.tools = p.tools
  if (p.input) sc.input = p.input
  // now and then a very long conversation
  const long = rng.bool(p.longP ?? 0.006)
  const maxTurns = long ? 9 + rng.int(6) : rng.range(p.turns[0], p.turns[1])
  sc.turns = []
  let idc = 0
  const pref = (p.idPrefix ?? '') + rng.pick(['call_', 'id', 'c-'])
  const field = rng.pick(['reasoning', 'reasoning_content'])
  for (let i = 0; i < maxTurns; i++) {
    const last = i === maxTurns - 1
    const ncalls = last ? (rng.bool(0.12) ? 1 : 0) : (long || rng.bool(p.callsP) ? 1 + rng.int(long ? 1 : p.maxCalls) : 0)
    const turn = { calls: [], field: rng.bool(0.1) ? rng.pick(['reasoning', 'reasoning_content']) : field }
    // some providers repeat the reasoning under both names
    if (isStream(api) && isChat(api) && turn.field === 'reasoning' && rng.bool(0.06)) turn.bothR = true
    // now and then very many calls at once
    const crowd = ncalls > 0 && !long && rng.bool(p.crowdP ?? 0.005) ? 7 + rng.int(6) : 0
    for (let j = 0; j < ncalls + crowd; j++) turn.calls.push(genCall(rng, `${pref}${idc++}`, p, sc.tools))
    if (ncalls > 0 && rng.bool(0.05)) turn.idxBase = rng.pick([1, 1, 3, 9, 200, 1000])
    if (ncalls > 1 && rng.bool(0.04)) turn.idxGap = rng.pick([2, 3, 7])
    turn.deltas = genDeltas(rng, turn, p)
    turn.usage = rng.bool(p.usageP) || api === 'generateText' || api === 'tel.generateText' ? genUsage(rng) : null
    turn.finish = ncalls > 0 ? rng.wpick([[6, 'tool_calls'], [1, 'stop'], [1, 'length'], [0.5, 'content_filter'], [1, null]]) : rng.wpick([[6, 'stop'], [1, 'length'], [1, null], [1, 'content_filter']])
    turn.wire = p.plainWire ? plainWire() : genWire(rng)
    if (api === 'responses') turn.terminal = rng.wpick([[12, 'completed'], [p.respTerminals ?? 0.5, 'incomplete'], [p.respTerminals ?? 0.5, 'failed']])
    turn.rkind = rng.pick(['reasoning_summary_text', 'reasoning'])
    if (isChat(api) && rng.bool(0.06)) turn.annot = Array.from({ length: 1 + rng.int(2) }, () => ({ at: rng.int(turn.deltas.length + 2), kind: rng.pick(['bare', 'null', 'bare', 'nochoices']) }))
    if (isChat(api) && rng.bool(0.03)) turn.finBare = true
    if (!isStream(api) && rng.bool(0.04)) turn.decoy = true
    if (!isStream(api) && rng.bool(p.partsP ?? 0.05)) turn.parts = { n: 1 + rng.int(3), refusal: rng.bool(0.3) }
    if (!isChat(api) && rng.bool(0.04)) turn.textPart = true
    if (!isChat(api) && rng.bool(0.06)) turn.multi = true
    if (!isChat(api) && rng.bool(0.12)) turn.ext = Array.from({ length: 1 + rng.int(2) }, () => ({ at: rng.int(4), type: rng.pick(['web_search_call', 'file_search_call', 'mcp_call', 'acme:telemetry_chunk', 'compaction']) }))
    sc.turns.push(turn)
    if (ncalls === 0) break
    if (turn.terminal && turn.terminal !== 'completed') break
  }
  const lastTurn = sc.turns.at(-1)
  if (lastTurn.calls.length > 0 && (lastTurn.terminal ?? 'completed') === 'completed') {
    const turn = { calls: [], field, deltas: [{ t: 'end' }], usage: genUsage(rng), finish: 'stop', wire: plainWire(), rkind: 'reasoning' }
    if (api === 'responses') turn.terminal = 'completed'
    sc.turns.push(turn)
  }
  sc.stop = p.stop ? p.stop(rng, sc.tools) : (rng.bool(0.75) ? { k: rng.bool(0.5) ? 'never' : 'steps', n: 1 + rng.int(long ? 16 : 6) } : STOPS(rng, sc.tools))
  sc.extra = {}
  if (rng.bool(0.3)) sc.extra.temperature = rng.int(20) / 10
  if (rng.bool(0.2)) sc.extra.topP = 0.5
  if (rng.bool(0.2)) sc.extra.parallelToolCalls = rng.bool()
  if (rng.bool(0.1)) sc.extra.seed = rng.int(1000)
  if (rng.bool(0.1)) sc.extra.maxOutputTokens = rng.int(1000)
  if (rng.bool(p.extraP ?? 0.08)) Object.assign(sc.extra, genExtras(rng))
  if (isStream(api) && rng.bool(0.3)) sc.streamOptions = isChat(api) ? { includeUsage: rng.bool() } : { includeObfuscation: rng.bool() }
  if (rng.bool(0.2)) sc.toolChoice = rng.pick(['auto', 'required', 'none'])
  sc.base = rng.pick(['http://sim.test/v1/', 'http://sim.test/v1', 'https://sim.test:8443/x/y/'])
  if (rng.bool(0.6)) sc.apiKey = `key-${rng.int(100)}`
  if (rng.bool(0.3)) sc.headers = { 'X-Sim': `h${rng.int(9)}` }
  // the caller's own values for what the library sets by default, in any spelling
  if (rng.bool(p.ownHeadersP ?? 0.06)) (sc.headers ??= {})[rng.pick(['Authorization', 'authorization', 'AUTHORIZATION'])] = 'Token own'
  if (rng.bool(p.ownHeadersP ?? 0.06)) (sc.headers ??= {})[rng.pick(['Content-Type', 'content-type', 'CONTENT-TYPE'])] = 'application/json; charset=utf-8'
  if (rng.bool(p.ownHeadersP ?? 0.06)) (sc.headers ??= {})[rng.pick(['Cookie', 'User-Agent', 'accept', 'OpenAI-Organization', 'x-empty'])] = rng.pick(['a=1; b=2', 'sim/1', '', '*/*'])
  if (sc.headers && rng.bool(0.2)) sc.headersKind = 'Headers'
  sc.globalFetch = rng.bool(p.globalFetchP ?? 0.15)
  if (p.warmP && rng.bool(p.warmP)) sc.warm = true
  // consumers
  sc.consumers = {}
  for (const s of ['text', 'reasoning', 'event', 'full']) {
    sc.consumers[s] = p.consumers === 'all'
      ? { mode: 'read' }
      : rng.wpick([
        [4, { mode: 'read' }],
        [3, { mode: 'slow', late: rng.bool(0.4) }],
        [2, { mode: 'cancel', after: rng.int(4), deferred: rng.bool(0.4), late: rng.bool(0.2) }],
        [2, { mode: 'ignore' }],
        [0.5, { mode: 'read', inCb: 1 + rng.int(12) }],
      ])
  }
  // callbacks
  sc.cb = { onEvent: rng.bool(0.5) || Object.values(sc.consumers).some(c => c.inCb), onStepFinish: rng.bool(0.6), onFinish: rng.bool(0.8), finishAsync: rng.bool(0.4), stepAsync: rng.bool(0.3) }
  if (rng.bool(p.cbFaultP ?? 0)) sc.cbFault = rng.pick(p.cbFaults ?? ['onFinish', 'stopWhen', 'prepareStep', 'onStepFinish'])
  // prepareStep
  if (rng.bool(p.prepareP)) {
    sc.prepare = sc.turns.map(() => ({
      async: rng.bool(0.5),
      model: rng.bool(0.4) ? `prep-${rng.int(9)}` : undefined,
      toolChoice: rng.bool(0.3) ? rng.pick(['auto', 'none', 'required']) : undefined,
      input: rng.bool(0.4) ? rng.pick(['append', 'replace', 'drop', 'append', 'replace', 'drop', 'empty']) : undefined,
      mutate: rng.bool(0.35),
      mutateLater: rng.bool(0.25),
      ret: rng.wpick([[5, 'obj'], [1, 'undef']]),
    }))
  }
  // network fault on one turn
  if (rng.bool(p.faultP)) {
    const at = rng.int(sc.turns.length)
    sc.turns[at].fault = genFault(rng, p.faults, api)
  }
  if (rng.bool(p.fatalP ?? 0)) {
    const t = sc.turns.filter(t => t.calls.length > 0)
    if (t.length > 0) {
      const c = rng.pick(rng.pick(t).calls)
      const k = rng.pick(isStream(api) && isChat(api) ? ['pre', 'post', 'noName'] : isChat(api) ? ['pre', 'post', 'noName', 'noArgs'] : ['pre', 'post'])
      if (k === 'pre') c.pre = { k: rng.bool(0.4) ? 'badid-result' : 'badid', async: rng.bool() }
      else if (k === 'post') c.post = { k: 'badid', async: rng.bool() }
      else if (k === 'noName') c.noName = true
      else c.noArgs = true
    }
  }
  if (rng.bool(p.abortP)) {
    sc.abort = {
      reason: rng.wpick([[3, 'default'], [2, 'error'], [1, 'string'], [1, 'object'], [p.oddErrP ? 1 : 0, 'null']]),
      after: rng.wpick([[1, -1], [2, 0], [8, rng.int(60)]]),
      phase: rng.wpick([[3, null], [2, 'req'], [3, 'chunk'], [3, 'tool'], [1, 'hook'], [1, 'item']]),
      nth: 1 + rng.int(3),
    }
    if (rng.bool(0.2)) {
      sc.abort.sync = true
      sc.abort.after = 0
      sc.abort.phase = rng.pick(['tool', 'hook', 'event', 'stepFinish', 'headers', 'body-end', 'body-end', 'piece', 'last-piece', 'last-piece'])
      if (sc.abort.phase === 'headers' && rng.bool(0.6)) sc.turns.forEach((t) => { t.wire.instant = true })
    }
    if (rng.bool(0.3)) {
      const t = rng.pick(sc.turns)
      t.fault = rng.pick([{ k: 'hang-headers' }, { k: 'cut', frac: rng.float(), mode: 'hang' }])
    }
    for (const t of sc.turns) {
      for (const c of t.calls) {
        if (rng.bool(0.15)) c.exec = { k: 'hang', v: 'never' }
        c.aware = rng.bool(0.5)
      }
    }
  }
  // a connection that stays open after the last event
  if (sc.api === 'responses' && rng.bool(p.lingerP ?? 0.06)) for (const t of sc.turns) if (t.calls.length && !t.fault && rng.bool(0.6)) t.linger = true
  if (!p.tools && !sc.tools.some(t => t.def) && rng.bool(p.noToolsP ?? 0.025)) { sc.noTools = rng.pick(['absent', 'empty']); sc.tools = [] }
  if (rng.bool(p.oddErrP ?? 0)) sc.oddErr = rng.pick(['undefined', 'null', 'empty', 'false'])
  return sc
}

/** what was said before: earlier answers, tool calls with their results, pictures, fields of the provider's own */
const genHistory = (rng, sc) => {
  const out = []
  const chat = isChat(sc.api)
  for (let n = 1 + rng.int(3), i = 0; i < n; i++) {
    const id = `h${i}`
    const args = rng.pick(['{}', '', '{"a": 1}', '{"q":"é\\n"}'])
    switch (rng.int(chat ? 6 : 5)) {
      case 0: out.push(chat ? { role: 'assistant', content: genText(rng, 2) } : { type: 'message', role: 'assistant', id: `m-${i}`, status: rng.bool(0.7) ? 'completed' : 'incomplete', content: [{ type: 'output_text', text: genText(rng, 2), annotations: [], logprobs: [] }] }); break
      case 1: {
        const two = rng.bool(0.4)
        const ids = two ? [id, `${id}b`] : [id]
        if (chat) {
          out.push({ role: 'assistant', ...(rng.bool(0.3) ? { content: rng.pick([null, '', 'let me see']) } : {}), tool_calls: ids.map(x => ({ id: x, type: 'function', function: { name: 't_a', arguments: args } })) })
          for (const x of ids) out.push({ role: 'tool', content: rng.bool(0.8) ? `r ${x}` : [{ type: 'text', text: `r ${x}` }], tool_call_id: x })
        }
        else {
          for (const x of ids) out.push({ type: 'function_call', call_id: x, name: 't_a', arguments: args, ...(rng.bool() ? { id: `fc-${x}`, status: 'completed' } : {}) })
          for (const x of ids) out.push({ type: 'function_call_output', call_id: x, output: rng.bool(0.8) ? `r ${x}` : [{ type: 'input_text', text: `r ${x}` }], ...(rng.bool() ? { id: `o-${x}`, status: 'completed' } : {}) })
        }
        break
      }
      case 2: out.push(chat ? { role: 'user', content: [{ type: 'text', text: genText(rng, 2) }, { type: 'image_url', image_url: { url: 'data:image/png;base64,AAAA', ...(rng.bool() ? { detail: 'low' } : {}) } }] } : { type: 'message', role: 'user', content: [{ type: 'input_text', text: genText(rng, 2) }, { type: 'input_image', image_url: 'https://img.test/1.png', detail: 'low' }] }); break
      case 3: out.push(chat ? { role: 'developer', content: 'be brief', name: 'dev' } : { type: 'item_reference', id: `msg_${i}` }); break
      case 4: out.push(chat ? { role: 'assistant', content: genText(rng, 2), refusal: null, reasoning_content: 'hm', annotations: [], cacheControl: { ttlSeconds: 5 } } : { type: 'reasoning', id: `rs-${i}`, summary: [{ type: 'summary_text', text: 'hm' }], encrypted_content: 'xx' }); break
      case 5: out.push({ role: 'user', name: 'ann', content: [{ type: 'input_audio', input_audio: { data: 'AAAA', format: 'wav' } }, { type: 'file', file: { file_id: 'f1' } }] }); break
    }
  }
  sc.input.splice(rng.int(sc.input.length + 1), 0, ...out)
}

export const STATUSES = [400, 401, 403, 404, 408, 409, 413, 422, 429, 500, 502, 503, 504, 529, 300, 302, 307, 418, 599]
/** an error page of several kilobytes, its last character as telling as its first */
export const LONG = `${"page é ".repeat(1200)}.`
export const errorBody = rng => rng.pick(["", "plain failure", `{"error":{"message":"nope"}}`, "<html>é</html>", "x".repeat(300), LONG, '  spaced out \n', '\uFEFF{"error":"marked"}'.slice(1), '\n{"error":{"message":"later line"}}\n\n'])

/** an error status; 304 never has a body */
export const httpFault = (rng) => {
  const status = rng.pick([...STATUSES, 304])
  return { k: 'http', status, body: status === 304 ? '' : errorBody(rng), split: rng.wpick([[3, 0], [2, 1], [1, 2], [1, 7]]) }
}

export const genFault = (rng, kinds, api) => {
  let k = rng.wpick(kinds ?? [[3, 'http'], [2, 'reject'], [4, 'cut-error'], [2, 'cut-close'], [2, 'badjson'], [2, 'sseerror'], [1, 'null'], [1, 'nonstream'], [1, 'http-broken']])
  if (!isStream(api)) {
    if (k === 'sseerror') k = 'badjson'
    if (k === 'badjson' && rng.bool(0.4)) return { k: 'nochoices', json: rng.pick([{ choices: [] }, { object: 'x' }, { choices: null }, { error: { message: 'as 200' } }]) }
  }
  switch (k) {
    case 'http': return httpFault(rng)
    case 'http-broken': return { k, status: rng.pick(STATUSES), body: rng.bool(0.15) ? LONG : 'partial body' }
    case 'reject': return { k }
    case 'cut-error': return { k: 'cut', frac: rng.float(), mode: 'error' }
    case 'cut-close': return { k: 'cut', frac: rng.float(), mode: 'close' }
    case 'badjson': return { k, frac: rng.float(), data: rng.pick(['{"choices":[', 'oops', '{]', '<html>', '{"choices":[]};', '{"choices":[]}{}', `{"choices":[ ${LONG}`]) }
    case 'sseerror': return { k, frac: rng.float(), json: api === 'responses' && rng.bool(0.3) ? { type: 'error', code: 'server_error', message: 'overloaded', param: null, sequence_number: 7 } : rng.pick([{ error: { message: 'overloaded', type: 'server_error' } }, { error: 'plain' }, { error: { message: LONG } }, { type: 'error', error: { message: 'x' } }, { id: 'gen-1', object: 'chat.completion.chunk', error: { code: 502, message: 'provider disconnected' }, choices: [{ index: 0, delta: { content: '' }, finish_reason: 'error' }] }]) }
    case 'null': return { k }
    case 'nonstream': return { k }
  }
  return { k }
}

// ---- rendering ------------------------------------------------------------

// the total is what the provider says it is: some count reasoning or cached tokens in it
const usageJson = (u, frac = 1) => ({ prompt_tokens: u.p, completion_tokens: Math.floor(u.c * frac), total_tokens: u.p + Math.floor(u.c * frac) + (u.x ?? 0) })

export const chatChunks = (sc, turn, k) => {
  const base = { id: `cmpl-${k}`, object: 'chat.completion.chunk', created: 1700000000 + k, model: sc.model, system_fingerprint: 'fp' }
  const out = []
  const u = turn.usage
  turn.deltas.forEach((d, i) => {
    const delta = {}
    if (i === 0) delta.role = 'assistant'
    if (d.r !== undefined) { delta[turn.field] = d.r; if (turn.bothR) delta.reasoning_content = d.r }
    if (d.t !== undefined) delta.content = d.t
    if (d.f !== undefined) delta.refusal = d.f
    if (d.c) {
      delta.tool_calls = d.c.map((x) => {
        const call = turn.calls[x.i]
        const f = {}
        if (x.first || x.rep) { if (!call.noName) f.name = call.name }
        if (x.a !== null && x.a !== undefined) f.arguments = x.a
        return { index: x.i * (turn.idxGap ?? 1) + (turn.idxBase ?? 0), ...(x.first || x.rep ? { id: call.id, type: 'function' } : {}), function: f, ...(x.first && call.xc ? { extra_content: call.xc } : {}) }
      })
    }
    const chunk = { ...base, choices: [{ index: 0, delta, finish_reason: null }] }
    if (u && u.pos === 'each') chunk.usage = usageJson(u, (i + 1) / (turn.deltas.length + 1))
    if (u && u.pos === 'shrink' && i < 2) chunk.usage = usageJson({ p: u.p + 7 - i, c: 2 * u.c + 9 - i })
    if (u && u.pos === 'first' && i === 0) chunk.usage = usageJson(u)
    out.push({ json: chunk, d })
  })
  const fin = { ...base, choices: [{ index: 0, ...(turn.finBare ? {} : { delta: {} }), finish_reason: turn.finish }] }
  if (u && (u.pos === 'finish' || u.pos === 'each' || u.pos === 'shrink' || (u.pos === 'first' && turn.deltas.length === 0))) fin.usage = usageJson(u)
  out.push({ json: fin, fin: true })
  // content filter results and the like arrive in choices of their own, without a delta
  for (const a of turn.annot ?? []) out.splice(Math.min(a.at, out.length), 0, { json: a.kind === 'nochoices' ? { ...base, provider_info: { region: 'x' } } : { ...base, choices: [{ index: 0, ...(a.kind === 'null' ? { delta: null } : {}), finish_reason: null, content_filter_results: { hate: { filtered: false, severity: 'safe' } }, content_filter_offsets: { check_offset: a.at } }] } })
  if (u && u.pos === 'tail') out.push({ json: { ...base, ...(u.bare ? {} : { choices: u.empty ? [{ index: 0, delta: {}, finish_reason: null }] : [] }), usage: usageJson(u) }, tail: true })
  return out
}

/** what usage the step has after the first n events */
export const usageAfter = (turn, chunks, n) => {
  let u
  for (const c of chunks.slice(0, n)) if (c.json.usage) u = { inputTokens: c.json.usage.prompt_tokens, outputTokens: c.json.usage.completion_tokens, totalTokens: c.json.usage.total_tokens }
  return u
}

export const chatMessage = (sc, turn, k) => {
  const f = foldDeltas(turn, turn.deltas)
  const message = { role: 'assistant', content: f.hasText ? turn.parts ? contentParts(turn, f.text) : f.text : null }
  if (f.reasoning !== undefined) message[turn.field] = f.reasoning
  if (turn.calls.length > 0) {
    message.tool_calls = turn.calls.map((c, i) => ({
      id: c.id,
      type: 'function',
      function: { ...(c.noName ? {} : { name: c.name }), ...(c.noArgs ? {} : { arguments: f.args.get(i) ?? '' }) },
      ...(c.xc ? { extra_content: c.xc } : {}),
    }))
  }
  const u = turn.usage ?? { p: 1, c: 1 }
  return { id: `cmpl-${k}`, object: 'chat.completion', created: 1, model: sc.model, system_fingerprint: 'fp', choices: [{ index: 0, finish_reason: turn.finish, message }, ...(turn.decoy ? [{ index: 1, finish_reason: 'length', message: { role: 'assistant', content: 'another answer' } }] : [])], usage: usageJson(u) }
}

/** Responses API events of one turn, from the same deltas */
export const responseEvents = (sc, turn, k) => {
  const ev = []
  const rid = `resp-${k}`
  const respBase = { id: rid, object: 'response', created_at: 1, model: sc.model, status: 'in_progress' }
  let sn = 0
  const push = (type, data, x) => ev.push({ event: type, json: { type, sequence_number: sn++, ...data }, ...x })
  push('response.created', { response: { ...respBase, output: [], usage: null } }, { start: true })
  push('response.in_progress', { response: { ...respBase, output: [], usage: null } })
  // group deltas into items
  const f = foldDeltas(turn, turn.deltas)
  const groups = []
  for (const d of turn.deltas) {
    for (const kind of ['r', 't', 'f']) {
      if (d[kind] === undefined) continue
      const last = groups.at(-1)
      if (last && last.kind === kind) last.parts.push(d[kind])
      else groups.push({ kind, parts: [d[kind]] })
    }
    for (const x of d.c ?? []) {
      if (x.first) groups.push({ kind: 'c', i: x.i, parts: turn.deltas.flatMap(y => (y.c ?? []).filter(z => z.i === x.i && z.a).map(z => z.a)) })
    }
  }
  for (const x of turn.ext ?? []) groups.splice(Math.min(x.at, groups.length), 0, { kind: 'x', type: x.type, parts: [] })
  const output = []
  groups.forEach((g, oi) => {
    // some services number the items of every response anew
    const item_id = sc.sameIds ? `item-${oi}` : `item-${k}-${oi}`
    const loc = { output_index: oi, item_id }
    const all = g.parts.join('')
    if (g.kind === 'x') {
      // an item of another type: the record of a hosted tool, or a provider's own extension
      const item = g.type === 'compaction' ? { id: item_id, type: g.type, encrypted_content: `e-${k}-${oi}` } : { id: item_id, type: g.type, status: 'completed', action: { query: `q-${k}-${oi}` } }
      push('response.output_item.added', { output_index: oi, item: { ...item, status: 'in_progress' } })
      push(`response.${g.type}.in_progress`, loc)
      push(`response.${g.type}.completed`, loc)
      push('response.output_item.done', { output_index: oi, item }, { item })
      output.push(item)
    }
    else if (g.kind === 'r') {
      const item = { id: item_id, type: 'reasoning', status: 'completed', summary: [{ type: 'summary_text', text: all }] }
      push('response.output_item.added', { output_index: oi, item: { ...item, status: 'in_progress', summary: [] } }, { rs: true })
      if (turn.rkind === 'reasoning') push('response.content_part.added', { ...loc, content_index: 0, part: { type: 'reasoning_text', text: '' } })
      g.parts.forEach((x, si) => push(`response.${turn.rkind}.delta`, { ...loc, ...(turn.rkind === 'reasoning' ? { content_index: 0 } : { summary_index: (si >> 1) + (k % 3) * 4 }), delta: x }, { r: x }))
      push(`response.${turn.rkind}.done`, { ...loc, text: all }, { rd: all })
      push('response.output_item.done', { output_index: oi, item }, { item })
      output.push(item)
    }
    else if (g.kind === 't' || g.kind === 'f') {
      // a message may have several parts
      const cut = turn.multi && g.parts.length > 1 ? 1 + ((g.parts.length + k) % (g.parts.length - 1)) : g.parts.length
      const sets = [g.parts.slice(0, cut), g.parts.slice(cut)].filter(x => x.length > 0)
      const mk = (x) => { const t = x.join(''); return g.kind === 't' && turn.textPart ? { type: 'text', text: t } : g.kind === 't' ? { type: 'output_text', text: t, annotations: [], logprobs: [] } : { type: 'refusal', refusal: t } }
      const content = sets.map(mk)
      const item = { id: item_id, type: 'message', role: 'assistant', status: 'completed', content }
      const name = g.kind === 't' ? 'output_text' : 'refusal'
      push('response.output_item.added', { output_index: oi, item: { ...item, status: 'in_progress', content: [] } })
      sets.forEach((set, ci) => {
        const part = content[ci]
        const whole = set.join('')
        push('response.content_part.added', { ...loc, content_index: ci, part: { ...part, ...(g.kind === 't' ? { text: '' } : { refusal: '' }) } }, { ts: true })
        for (const x of set) push(`response.${name}.delta`, { ...loc, content_index: ci, delta: x }, { t: x })
        push(`response.${name}.done`, { ...loc, content_index: ci, ...(g.kind === 't' ? { text: whole } : { refusal: whole }) }, { td: whole })
        push('response.content_part.done', { ...loc, content_index: ci, part })
      })
      push('response.output_item.done', { output_index: oi, item }, { item })
      output.push(item)
    }
    else {
      const call = turn.calls[g.i]
      const item = { id: item_id, type: 'function_call', status: 'completed', call_id: call.id, name: call.name, arguments: f.args.get(g.i) ?? '' }
      push('response.output_item.added', { output_index: oi, item: { ...item, status: 'in_progress', arguments: '' } }, { cs: g.i })
      for (const x of g.parts) push('response.function_call_arguments.delta', { ...loc, delta: x }, { ca: x, ci: g.i })
      push('response.function_call_arguments.done', { ...loc, arguments: item.arguments })
      push('response.output_item.done', { output_index: oi, item }, { item, cd: g.i })
      output.push(item)
    }
  })
  // what was being written when the limit was reached
  if (turn.terminal === 'incomplete' && output.at(-1)?.status) output.at(-1).status = 'incomplete'
  const u = turn.usage
  const usage = u ? { input_tokens: u.p, output_tokens: u.c, total_tokens: u.p + u.c + (u.x ?? 0), input_tokens_details: { cached_tokens: 0 }, output_tokens_details: { reasoning_tokens: 0 } } : null
  const term = turn.terminal ?? 'completed'
  push(`response.${term}`, { response: { ...respBase, status: term, output, usage, ...(term === 'failed' ? { error: { code: 'server_error', message: `failed ${k}` } } : term === 'incomplete' ? { incomplete_details: { reason: 'max_output_tokens' } } : {}) } }, { term })
  return ev
}

/** the calls of a responses turn in output order */
export const responseCallOrder = turn => foldDeltas(turn, turn.deltas).order

export const turnPayloads = (sc, turn, k) => isChat(sc.api) ? chatChunks(sc, turn, k) : responseEvents(sc, turn, k)

/** network plan for one turn of a streaming or unary call */
export const turnPlan = (sc, turn, k, mkErr) => {
  const fault = turn.fault
  if (fault) {
    switch (fault.k) {
      case 'hang-headers': return { hangHeaders: true }
      case 'reject': return { reject: mkErr(`network-${k}`) }
      case 'http': {
        const b = new TextEncoder().encode(fault.body)
        const pieces = []
        const n = Math.max(1, Math.ceil(b.length / (1 + (fault.split ?? 0))))
        for (let i = 0; i < b.length; i += n) pieces.push(b.slice(i, i + n))
        return { status: fault.status, statusText: 'Nope', headers: { 'content-type': 'application/json', 'x-req': `r${k}` }, pieces, end: 'close', faultName: 'net.http-status' }
      }
      case 'http-broken': return { status: fault.status, pieces: [new TextEncoder().encode(fault.body)], end: 'error', endError: mkErr(`body-${k}`), faultName: 'net.http-status' }
      case 'null': return { kind: 'null', headers: {} }
      case 'nonstream': return { kind: 'nonstream', bodyValue: 'i am text', headers: { 'content-type': 'text/plain' } }
    }
  }
  if (!isStream(sc.api)) {
    let bytes = new TextEncoder().encode(JSON.stringify(chatMessage(sc, turn, k)))
    let end = 'close'
    if (fault?.k === 'badjson') bytes = new TextEncoder().encode(fault.data)
    if (fault?.k === 'nochoices') bytes = new TextEncoder().encode(JSON.stringify(fault.json))
    if (fault?.k === 'cut') {
      // a length-less JSON body that ends early is either an error on the wire or unparsable
      bytes = bytes.slice(0, Math.min(bytes.length - 1, Math.floor(fault.frac * bytes.length)))
      end = fault.mode
    }
    const rng = new Prng(turn.wire.splitSeed)
    const pieces = []
    for (let i = 0; i < bytes.length;) { const n = 1 + rng.int(Math.max(1, bytes.length)); pieces.push(bytes.slice(i, i + n)); i += n }
    return { status: 200, headers: { 'content-type': 'application/json' }, pieces, end, endError: mkErr(`body-${k}`), push: turn.wire.push, byob: turn.wire.byob, instant: turn.wire.instant, hwm: turn.wire.hwm, faultName: fault ? `net.${fault.k}` : undefined }
  }
  const payloads = turnPayloads(sc, turn, k)
  let list = payloads
  let faultName
  if (fault?.k === 'badjson' || fault?.k === 'sseerror') {
    const at = Math.floor(fault.frac * payloads.length)
    list = [...payloads.slice(0, at), fault.k === 'badjson' ? { data: fault.data } : { json: fault.json }, ...payloads.slice(at)]
    faultName = `net.${fault.k}`
  }
  const plan = wirePlan(list, turn.wire, Prng, fault?.k === 'cut' ? fault : null, mkErr(`body-${k}`))
  if (fault?.k === 'cut') faultName = `net.cut-${fault.mode}`
  plan.payloads = payloads
  plan.faultName = faultName
  plan.stopAt = fault?.k === 'badjson' || fault?.k === 'sseerror' ? Math.floor(fault.frac * payloads.length) : Infinity
  return plan
}
