// Several conversations in one world, sharing the caller's own objects.
import { genConv, isChat } from '../chat-gen.mjs'
import { initialInput, judgeConv, startConv } from '../chat-run.mjs'
import { BUSY, busyRun, REAL, STUB } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C26 from './C26.mjs'

const APIS = ['streamText', 'generateText', 'tel.streamText', 'tel.generateText']
const GROUPS = ['deliver', 'history', 'errors', 'settle', 'events', 'tools', 'contain', 'loop', 'usage', 'request', 'isolate', 'consumers', 'abort']
const deepFreeze = (x) => {
  if (x === null || typeof x !== 'object' || Object.isFrozen(x)) return x
  Object.freeze(x)
  for (const v of Object.values(x)) deepFreeze(v)
  return x
}
const j = x => JSON.stringify(x)
const clone = x => JSON.parse(JSON.stringify(x))

const own = {
  id: 'C12',
  rule: BUSY,
  runs: { quick: 10000, thorough: 2000000 },
  real: [...REAL.stream, 'generate-text', 'telemetry wrappers', 'responses'],
  stub: STUB,
  maxSteps: 12000,
  gen: (rng) => {
    const family = rng.bool(0.25) ? 'responses' : 'chat'
    const n = 2 + rng.int(3)
    const sc = { family, convs: [], freeze: rng.bool(0.35), share: rng.bool(0.75), mutateAfter: null, sharedHooks: rng.bool(0.3), start: [] }
    let first
    for (let i = 0; i < n; i++) {
      const p = { apis: family === 'responses' ? ['responses'] : APIS, turns: [1, 3], toolFaults: 0.1, faultP: i > 0 ? 0.3 : 0, abortP: i > 0 && rng.bool(0.25) ? 1 : 0, consumers: rng.bool(0.6) ? 'all' : 'mixed', hooks: rng.bool(0.2), noToolsP: 0, idPrefix: `${'ABCD'[i]}-`, globalFetchP: 0, stop: () => ({ k: 'never' }) }
      if (first && sc.share) { p.tools = first.tools; p.input = first.input }
      const c = genConv(rng, p)
      c.globalFetch = false
      if (first && sc.share) { c.headers = first.headers; c.inputStr = false; if (first.inputStr) first.inputStr = false }
      sc.convs.push(c)
      sc.start.push(rng.bool(0.4))
      first ??= c
    }
    if (!sc.share && !sc.freeze && rng.bool(0.6)) sc.mutateAfter = rng.int(n)
    return sc
  },
  main: async (w, L, sc) => {
    const box = sc.share ? { routes: [] } : undefined
    const base = sc.convs[0]
    const input = sc.share ? initialInput({ ...base, inputStr: false }) : undefined
    const headers = sc.share && base.headers ? clone(base.headers) : undefined
    const st = { os: [], input, headers, inputJ: j(input), headersJ: j(headers) }
    if (sc.freeze) { if (input) deepFreeze(input); if (headers) deepFreeze(headers) }
    await Promise.all(sc.convs.map(async (c, i) => {
      if (sc.start[i]) await w.later('start', `start ${i}`)
      const o = await startConv(w, L, c, 'ABCD'[i], {
        toolBox: box,
        input,
        headers,
        beforeCall: (options) => {
          if (sc.freeze) {
            if (options.tools) for (const t of options.tools) { Object.freeze(t); deepFreeze(t.function) }
            Object.freeze(options.tools)
            deepFreeze(isChat(c.api) ? options.messages : options.input)
            if (options.headers) Object.freeze(options.headers)
            Object.freeze(options)
          }
        },
      })
      st.os[i] = o
      if (sc.mutateAfter === i) {
        w.post('hook', 'caller reuses its array', () => {
          w.fault('caller.mutates-input')
          const list = isChat(c.api) ? o.options.messages : o.options.input
          if (Array.isArray(list)) {
            list.push({ role: 'user', content: 'LATER' })
            list[0].content = 'CHANGED'
          }
          o.optionsBefore = null
        })
      }
    }))
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    st.os.forEach((o, i) => {
      if (o.optionsBefore === null) {
        // the caller changed its own array after the call: nothing of that may be visible
        const list = isChat(o.sc.api) ? o.options.messages : o.options.input
        void list
      }
      for (const v of judgeConv(o, L)) {
        if (o.optionsBefore === null && v.rule.startsWith('isolate.options')) continue
        if (GROUPS.some(g => v.rule === g || v.rule.startsWith(`${g}.`))) out.push({ rule: v.rule, msg: `conversation ${i} of ${sc.convs.length}: ${v.msg}` })
      }
    })
    if (st.input && j(st.input) !== st.inputJ) out.push({ rule: 'isolate.shared-input', msg: `the shared messages were modified: ${j(st.input).slice(0, 400)}` })
    if (st.headers && j(st.headers) !== st.headersJ) out.push({ rule: 'isolate.shared-headers', msg: `the shared headers were modified: ${j(st.headers)}` })
    return out
  },
  nontrivial: busyRun,
}

export default mixProps(own, [
  [0.12, 'C26', C26, ['unary.options', 'unary.result', 'unary.body', 'unary.headers', 'unary.auth', 'unary.request']],
])
