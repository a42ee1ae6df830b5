// A small executable reference model of one conversation, and the generator of scripted
// conversations. Nothing here reads the library's code or state.

const WORDS = ['alpha', 'beta', ' gamma', 'délta', ' 中文', '🙂', '👩‍👩‍👧', 'x', '\n', '  ', 'data: y', '[DONE]', '"quoted"', '\\n', 'null', 'undefined', '\u2028', '\t', 'error', '{"error":1}', ': c', '\r', 'e\u0301', '</think>', 'ß', '0', 'false', '𝒳', 'end.\n\n']

export const genText = (rng, max = 4) => {
  const n = 1 + rng.int(max)
  let s = ''
  for (let i = 0; i < n; i++) s += rng.pick(WORDS)
  return s
}

/** cut a string into parts, mostly at code point boundaries (the halves of a pair arrive as JSON escapes) */
export const cutText = (rng, s, maxParts = 4) => {
  const cps = rng.bool(0.06) ? s.split('') : [...s]
  const parts = []
  let i = 0
  while (i < cps.length) {
    const k = 1 + rng.int(Math.max(1, Math.ceil(cps.length / maxParts)) * 2)
    parts.push(cps.slice(i, i + k).join(''))
    i += k
  }
  return parts
}

const genResult = (rng, id) => rng.wpick([
  [4, `res-${id}-${genText(rng, 1)}`],
  [1, ''],
  [3, { id, ok: true, nested: { a: [1, 2, null] } }],
  [1, [1, 'two', { three: 3 }]],
  [1, [{ type: 'text', text: `part ${id}` }]],
  [0.4, [{ type: 'text', text: '' }, { type: 'text', text: `part ${id}` }]],
  [1, [{ type: 'text', text: `part ${id}` }, { type: 'other', text: 'x' }]],
  [0.7, [{ type: 'input_text', text: `part ${id}` }, { type: 'input_image', image_url: 'https://img.test/1.png' }, { type: 'input_file', file_id: 'f1' }].slice(0, 1 + rng.int(3))],
  [0.5, [{ type: 'image_url', image_url: { url: 'https://img.test/1.png' } }, { type: 'file', file: { file_id: 'f1' } }, { type: 'input_audio', input_audio: { data: 'AA', format: 'wav' } }].slice(rng.int(3))],
  [0.5, [{ type: 'input_text', text: 'x' }, rng.pick([null, 'input_text', 7, { text: 'no type' }, { type: 'text', text: 'x' }])]],
  [0.3, [rng.pick([null, { text: 'no type' }]), { type: 'text', text: 'x' }]],
  [1, []],
  [0.3, rng.pick([null, 0, false, 7])],
])

export const ERRKINDS = ['error', 'error', 'string', 'string', 'custom', 'custom', 'null', 'undef']

/** values a tool or hook may hand over that JSON, or structured cloning, has no form for */
export const ODD = ['bigint', 'circular', 'fn']
export const oddValue = (k, v) => {
  if (k === 'bigint') return { big: 10n }
  if (k === 'circular') { const o = { id: 1 }; o.self = o; return o }
  return { ...v, fn: () => 1 }
}
const unsendable = x => x.odd === 'bigint' || x.odd === 'circular'
const genOdd = (rng, x, id) => {
  x.odd = rng.pick(ODD)
  if (x.odd === 'fn') x.v = { id, ok: true }
  else delete x.v
}

export const genCall = (rng, id, p, tools) => {
  const f = p.toolFaults ?? 0
  const c = { id, name: rng.pick(tools).name, exec: { k: rng.wpick([[2, 'ret'], [6, 'async']]), v: genResult(rng, id) }, pre: null, post: null }
  const bad = rng.bool(f)
  c.args = rng.wpick([
    [8, JSON.stringify({ q: id, n: rng.int(100), s: genText(rng, 2) })],
    [1, '{}'],
    [0.6, ''],
    [p.hugeP ?? 0.04, JSON.stringify({ q: id, file: `${genText(rng, 1)} é `.repeat(400 + rng.int(1200)), end: id })],
    [0.4, ' '],
    [0.3, rng.pick(['null', '7', 'false', '"just text"', '[1,{"a":null}]', ' {"q":"padded"}\n', JSON.stringify(JSON.stringify({ q: id })), `${'['.repeat(20)}7${']'.repeat(20)}`])],
    [0.6, JSON.stringify({ q: id, deep: { list: [1, { a: genText(rng, 1) }] } }, null, 2)],
  ])
  // what the provider attaches to a call of its own, such as the signature of a thought
  if (rng.bool(0.06)) c.xc = { google: { thought_signature: `sig-${id}` } }
  if (bad) {
    switch (rng.wpick([[3, 'throw'], [3, 'reject'], [2, 'unknown'], [3, 'badjson'], [3, 'invalid'], [2, 'valthrow'], [2, 'prethrow'], [2, 'postthrow']])) {
      case 'throw': c.exec = { k: 'throw', e: rng.pick(ERRKINDS) }; break
      case 'reject': c.exec = { k: 'reject', e: rng.pick(ERRKINDS) }; break
      case 'unknown': c.name = rng.pick(['nope', 'T_A', 't_a ', 'toString', 'constructor']); break
      case 'badjson': c.args = rng.pick(['{"q":', 'not json', '{"a":1}}', '[1,', 'undefined', `{"q":"${id}"`, `\`\`\`json\n{"q":"${id}"}\n\`\`\``, `{"q":"${id}"};`, `{'q':'${id}'}`, `{"q":"${id}",}`]); break
      case 'invalid': c.args = JSON.stringify({ q: id, bad: rng.bool(0.3) ? 'partial' : true }); break
      case 'valthrow': c.args = JSON.stringify({ q: id, boom: true }); break
      case 'prethrow': c.pre = { k: 'throw', async: rng.bool(), e: rng.pick(ERRKINDS) }; break
      case 'postthrow': c.post = { k: 'throw', async: rng.bool(), e: rng.pick(ERRKINDS) }; if (rng.bool(0.3)) c.exec = { k: 'reject', e: 'error' }; break
    }
  }
  if ((c.exec.k === 'ret' || c.exec.k === 'async') && rng.bool(p.oddP ?? 0.04)) genOdd(rng, c.exec, id)
  if (p.hooks) {
    if (c.pre == null && rng.bool(0.35)) {
      c.pre = { async: rng.bool(), k: rng.wpick([[2, 'void'], [2, 'args'], [1, 'name'], [2, 'result']]) }
      if (c.pre.k === 'args') c.pre.v = rng.wpick([[3, JSON.stringify({ q: id, re: 1 })], [0.5, ''], [0.3, ' \n'], [1, '{bad'], [1, JSON.stringify({ q: id, bad: true })]])
      if (c.pre.k === 'name') c.pre.v = rng.wpick([[3, rng.pick(tools).name], [1, 'gone']])
      if (c.pre.k === 'result') { c.pre.v = genResult(rng, `${id}-syn`); if (rng.bool(p.oddP ?? 0.04)) genOdd(rng, c.pre, id) }
    }
    if (c.post == null && rng.bool(0.35)) {
      c.post = { async: rng.bool(), k: rng.wpick([[2, 'void'], [3, 'override']]) }
      if (c.post.k === 'override') { c.post.v = genResult(rng, `${id}-post`); if (rng.bool(p.oddP ?? 0.04)) genOdd(rng, c.post, id) }
    }
  }
  return c
}

/** deltas of one streamed turn; each delta is one network event */
export const genDeltas = (rng, turn, p) => {
  const lanes = []
  const field = turn.field
  if (rng.bool(turn.calls.length > 0 ? 0.4 : 0.6) || p.wantReasoning) {
    const s = genText(rng, 5)
    lanes.push({ kind: 'r', parts: cutText(rng, s, 4).map(x => ({ r: x })) })
  }
  void field
  const wantText = turn.calls.length === 0 ? rng.bool(0.93) || p.wantText : rng.bool(0.45)
  if (wantText) {
    const s = genText(rng, p.longText ? 16 : 6)
    const k = rng.bool(0.12) ? 'f' : 't'
    const parts = cutText(rng, s, 6).map(x => ({ [k]: x }))
    // now and then a long answer in very many small pieces
    if (rng.bool(p.bulkP ?? 0.006)) for (let i = 0, n = 70 + rng.int(120); i < n; i++) parts.push({ [k]: `${i} ` })
    if (rng.bool(p.hugeP ?? 0.004)) parts.push({ [k]: `${genText(rng, 2)}\n`.repeat((600 + rng.int(4000)) * (rng.bool(0.15) ? 4 : 1)) })
    if (rng.bool(0.15)) parts.splice(rng.int(parts.length + 1), 0, { [k]: '' })
    // a model may well say the same thing twice
    if (rng.bool(0.04)) { const x = rng.bool() ? rng.pick(parts)[k] : 'and over and over and over again, '; parts.splice(rng.int(parts.length + 1), 0, { [k]: x }, { [k]: x }) }
    lanes.push({ kind: k, parts })
  }
  turn.calls.forEach((c, i) => {
    const pieces = c.args === '' ? [] : cutText(rng, c.args, 4)
    const parts = []
    const firstArg = rng.wpick([[4, ''], [2, null], [2, 'data']])
    const head = { c: [{ i, first: true, a: firstArg === 'data' ? (pieces.shift() ?? '') : firstArg }] }
    parts.push(head)
    for (const a of pieces) parts.push({ c: [{ i, a, rep: rng.bool(0.08) }] })
    if (rng.bool(0.06)) parts.push({ c: [{ i, a: rng.bool() ? '' : null }] })
    lanes.push({ kind: 'c', parts, i })
  })
  // order: reasoning, then text, then calls most of the time; sometimes fully woven
  let out = []
  const weave = rng.bool(0.3)
  if (weave) {
    const qs = lanes.map(l => [...l.parts])
    while (qs.some(q => q.length)) {
      const alive = qs.filter(q => q.length)
      out.push(rng.pick(alive).shift())
    }
  }
  else {
    const calls = lanes.filter(l => l.kind === 'c')
    for (const l of lanes.filter(l => l.kind !== 'c')) out.push(...l.parts)
    if (calls.length > 1 && rng.bool(0.4)) {
      const qs = calls.map(l => [...l.parts])
      // first fragments keep index order, the rest interleave
      for (const q of qs) out.push(q.shift())
      while (qs.some(q => q.length)) out.push(rng.pick(qs.filter(q => q.length)).shift())
    }
    else { for (const l of calls) out.push(...l.parts) }
  }
  // occasionally merge two neighbouring deltas of different kinds into one event
  if (rng.bool(0.2)) {
    const merged = []
    for (const d of out) {
      const last = merged.at(-1)
      const canText = d => d.t !== undefined || d.f !== undefined
      if (last && rng.bool(0.3)
        && !(last.r !== undefined && d.r !== undefined)
        && !(canText(last) && canText(d))
        && !(last.c && d.c && last.c.some(x => d.c.some(y => y.i === x.i)))
        && !(last.c && !d.c)) {
        Object.assign(last, d, last.c && d.c ? { c: [...last.c, ...d.c] } : {})
      }
      else { merged.push({ ...d }) }
    }
    out = merged
  }
  if (rng.bool(0.1)) out.splice(rng.int(out.length + 1), 0, {})
  return out
}

export const genUsage = (rng) => {
  const none = rng.bool(0.03)
  const p = none ? 0 : rng.int(200); const c = none ? 0 : rng.int(200)
  return { p, c, ...(rng.bool(0.2) ? { x: 1 + rng.int(90) } : {}), ...(rng.bool(0.08) ? { empty: true } : {}), pos: rng.wpick([[6, 'tail'], [2, 'finish'], [1, 'each'], [1, 'first'], [0.7, 'shrink']]) }
}

export const STOPS = (rng, tools, depth = 2) => rng.wpick([
  [2, null],
  [5, { k: 'steps', n: 1 + rng.int(5) }],
  [2, { k: 'never' }],
  [1, { k: 'tool', name: rng.pick(tools).name }],
  [1, { k: 'tool' }],
  [1, { k: 'and', a: { k: 'steps', n: 1 + rng.int(3) }, b: { k: 'tool', name: rng.pick(tools).name } }],
  [1, { k: 'or', a: { k: 'steps', n: 2 + rng.int(3) }, b: { k: 'tool', name: rng.pick(tools).name } }],
  [1, { k: 'not', a: { k: 'tool', name: rng.pick(tools).name } }],
  [1, { k: 'results', n: 1 + rng.int(3) }],
  [1, { k: 'tokens', n: rng.int(400) }],
  ...(depth ? [[1.5, { k: rng.pick(['all', 'any', 'not']), of: Array.from({ length: 1 + rng.int(4) }, () => STOPS(rng, tools, depth - 1) ?? { k: 'never' }) }]] : []),
])

/** own evaluation of a stop condition tree over the model's steps */
export const evalStop = (s, steps) => {
  const step = steps.at(-1)
  if (s == null) return steps.length >= 1
  switch (s.k) {
    case 'steps': return steps.length >= s.n
    case 'never': return false
    case 'tool': return step.toolCalls.some(c => s.name == null || c.toolName === s.name)
    case 'and': return evalStop(s.a, steps) && evalStop(s.b, steps)
    case 'or': return evalStop(s.a, steps) || evalStop(s.b, steps)
    case 'not': return !evalStop(s.a ?? s.of[0], steps)
    case 'all': return s.of.every(x => evalStop(x, steps))
    case 'any': return s.of.some(x => evalStop(x, steps))
    case 'results': return steps.reduce((n, x) => n + x.toolResults.length, 0) >= s.n
    case 'tokens': return steps.reduce((n, x) => n + (x.usage?.totalTokens ?? 0), 0) >= s.n
  }
}

export const buildStop = (s, lib) => {
  if (s == null) return undefined
  switch (s.k) {
    case 'steps': return lib.stepCountAtLeast(s.n)
    case 'never': return () => false
    case 'tool': return lib.hasToolCall(s.name)
    case 'and': return lib.and(buildStop(s.a, lib), buildStop(s.b, lib))
    case 'or': return lib.or(buildStop(s.a, lib), buildStop(s.b, lib))
    case 'not': return lib.not(buildStop(s.a ?? s.of[0], lib))
    case 'all': return lib.and(...s.of.map(x => buildStop(x, lib)))
    case 'any': return lib.or(...s.of.map(x => buildStop(x, lib)))
    case 'results': return ({ steps }) => steps.reduce((n, x) => n + x.toolResults.length, 0) >= s.n
    case 'tokens': return ({ steps }) => steps.reduce((n, x) => n + (x.usage?.totalTokens ?? 0), 0) >= s.n
  }
}

// ---- semantics of one turn ----------------------------------------------

export const isParts = (v, kinds) => Array.isArray(v) && v.every(x => x !== null && typeof x === 'object' && 'type' in x && kinds.includes(x.type))
const toContent = (v, api) => {
  if (typeof v === 'string') return v
  if (isParts(v, api === 'responses' ? ['input_file', 'input_image', 'input_text'] : ['file', 'image_url', 'input_audio', 'text'])) return v
  return JSON.stringify(v)
}

export const errText = (k, id) => k === 'null' || k === 'undef' ? '' : k === 'string' ? `plain ${id}` : `boom ${id}`

/** a message whose content is a list of parts instead of a string */
export const contentParts = (turn, text) => {
  const cps = [...text]
  const k = Math.max(1, Math.ceil(cps.length / turn.parts.n))
  const out = []
  for (let i = 0; i < cps.length; i += k) out.push({ type: 'text', text: cps.slice(i, i + k).join('') })
  if (turn.parts.refusal) out.splice(1, 0, { type: 'refusal', refusal: 'not that' })
  return out
}
/** fold the deltas actually on the wire into what the step means */
export const foldDeltas = (turn, deltas) => {
  let text = ''; let plain = ''; let reasoning; let hasText = false
  const args = new Map()
  const order = []
  for (const d of deltas) {
    if (d.r !== undefined) reasoning = (reasoning ?? '') + d.r
    if (d.t !== undefined) { text += d.t; plain += d.t; hasText = true }
    if (d.f !== undefined) { text += d.f; hasText = true }
    for (const x of d.c ?? []) {
      if (!args.has(x.i)) { args.set(x.i, ''); order.push(x.i) }
      args.set(x.i, args.get(x.i) + (x.a ?? ''))
    }
  }
  return { text, plain, reasoning, hasText, args, order }
}

/** what must happen to one tool call */
export const expectCall = (call, args, tools, api) => {
  const out = { id: call.id, exec: null, fatal: null, pre: false, post: false }
  if (call.noArgs) { out.fatal = 'missing_arguments'; return out }
  if (call.noName) { out.fatal = 'missing_name'; return out }
  const tc = { args, toolCallId: call.id, toolCallType: 'function', toolName: call.name }
  let result
  const fail = (a, msgs) => ({ args: a, isError: true, msgs: [tc.toolName, ...msgs], toolCallId: call.id, toolName: tc.toolName })
  out.pre = true
  switch (call.pre?.k) {
    case 'args': tc.args = call.pre.v; break
    case 'name': tc.toolName = call.pre.v; break
    case 'result': result = unsendable(call.pre) ? fail('synthetic', []) : { args: 'synthetic', result: call.pre.v, toolCallId: call.id, toolName: call.name }; break
    case 'throw': result = fail(args, [errText(call.pre.e, `pre-${call.id}`)]); break
    case 'badid':
    case 'badid-result': out.fatal = 'tool_call_id_mismatch'; out.fatalId = `${call.id}-x`; return out
  }
  if (!result) {
    const tool = tools.find(t => t.name === tc.toolName)
    let input
    let bad = false
    if (!tool) { result = fail(tc.args, tools.map(t => t.name)); bad = true }
    else {
      try { input = JSON.parse(tc.args.trim() === '' ? '{}' : tc.args) }
      catch { result = fail(tc.args, []); bad = true }
    }
    if (!bad && tool.val !== 'none') {
      if (input?.boom) { result = fail(tc.args, ['validator exploded']); bad = true }
      else if (input?.bad) { result = fail(input, []); bad = true }
      else if (tool.val === 'transform') { input = { ...input, validatedBy: tool.name } }
      else if (tool.val === 'null') { input = null }
      else if (tool.val === 'bigint') { input = { ...input, big: '7n' } }
    }
    if (!bad) {
      out.exec = { name: tool.name, input }
      if (call.exec.k === 'throw' || call.exec.k === 'reject') result = { ...fail(input, [errText(call.exec.e, call.id)]) }
      else if (unsendable(call.exec)) result = fail(input, [])
      else result = { args: input, result: call.exec.v, toolCallId: call.id, toolName: tc.toolName }
      out.post = true
      out.toolCall = tc
      switch (call.post?.k) {
        case 'override': result = unsendable(call.post) ? fail('post', []) : { args: 'post', result: call.post.v, toolCallId: call.id, toolName: tc.toolName, isError: call.post.isError }; break
        case 'throw': result = fail(input, [errText(call.post.e, `post-${call.id}`)]); break
        case 'badid': out.fatal = 'tool_call_id_mismatch'; out.fatalId = `${call.id}-x`; return out
      }
    }
  }
  out.toolCall = tc
  out.result = result
  out.content = result.msgs ? null : toContent(result.result, api)
  return out
}
