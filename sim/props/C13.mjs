// The same conversation through the unary and the streaming call must mean the same thing.
import { genConv } from '../chat-gen.mjs'
import { judgeConv, normInput, startConv } from '../chat-run.mjs'
import { genUsage } from '../chat-model.mjs'
import { BUSY, busyRun, STUB } from '../conv-prop.mjs'
import { deepEq, show } from '../world.mjs'

const clone = x => x === undefined ? undefined : JSON.parse(JSON.stringify(x))
const short = (x) => { const s = JSON.stringify(x) ?? 'undefined'; return s.length > 260 ? `${s.slice(0, 260)}…` : s }
const PAIRS = [['generateText', 'streamText'], ['tel.generateText', 'streamText'], ['generateText', 'tel.streamText'], ['generateText', 'tel.generateText'], ['streamText', 'tel.streamText']]

// messages carry an empty text differently (null when unary, '' when streamed)
const stepOf = s => ({ finishReason: s.finishReason, text: s.text ?? '', toolCalls: clone(s.toolCalls), toolResults: clone(s.toolResults), usage: clone(s.usage) })

export default {
  id: 'C13',
  rule: BUSY,
  runs: { quick: 15000, thorough: 3000000 },
  real: ['generate-text', 'stream-text', 'telemetry wrappers', 'shared-chat', 'shared-stream', 'shared'],
  stub: STUB,
  gen: (rng) => {
    const pair = rng.wpick([[6, PAIRS[0]], [1, PAIRS[1]], [1, PAIRS[2]], [1.5, PAIRS[3]], [1, PAIRS[4]]])
    const base = genConv(rng, {
      apis: ['generateText'], turns: [1, 5], toolFaults: 0.25, hooks: rng.bool(0.4), consumers: 'all', prepareP: 0.25, fatalP: 0.08, usageP: 1,
      faultP: 0.2, faults: [[3, 'http'], [2, 'reject'], [1, 'null']], bigintP: 0, oddP: 0.04, partsP: 0,
    })
    for (const t of base.turns) {
      t.usage ??= genUsage(rng)
      t.finish ??= 'stop'
      for (const c of t.calls) delete c.noArgs
      if (t.deltas.length === 0) t.deltas.push({ t: '.' })
    }
    base.globalFetch = false
    // answers in several parts exist only where nothing is streamed
    if (pair === PAIRS[3]) for (const t of base.turns) if (rng.bool(0.3)) t.parts = { n: 1 + rng.int(3), refusal: rng.bool(0.3) }
    return { pair, base, together: rng.bool() }
  },
  main: async (w, L, sc) => {
    const st = {}
    const one = async (api, tag) => startConv(w, L, { ...clone(sc.base), api }, tag)
    st.a = await one(sc.pair[0], 'a')
    if (!sc.together) {
      // one after the other: wait for the first outcome
      const ps = Object.values(st.a.proms)
      while (ps.some(p => p.state === 'pending') && !st.stuck) await new Promise(r => w.post('start', 'start b', r))
    }
    st.b = await one(sc.pair[1], 'b')
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg: `${sc.pair.join(' / ')}: ${msg}` })
    const oc = (o) => {
      const ps = Object.values(o.proms)
      if (ps.some(p => p.state === 'pending')) return { k: 'pending' }
      const r = ps.find(p => p.state === 'rejected')
      if (r) return { k: 'rejected', error: r.error }
      if (o.proms.result) { const v = o.proms.result.value; return { k: 'fulfilled', steps: v.steps, messages: v.messages, usage: v.usage, totalUsage: v.totalUsage } }
      return { k: 'fulfilled', steps: o.proms.steps.value, messages: o.proms.messages.value, usage: o.proms.usage.value, totalUsage: o.proms.totalUsage.value }
    }
    for (const o of [st.a, st.b]) judgeConv(o, L)
    const a = oc(st.a)
    const b = oc(st.b)
    if (a.k !== b.k) { bad('agree.outcome', `${a.k}${a.error ? ` (${show(a.error)})` : ''} against ${b.k}${b.error ? ` (${show(b.error)})` : ''}`); return out }
    if (a.k === 'pending') { bad('agree.pending', 'neither call settles'); return out }
    // what went over the wire
    if (st.a.reqs.length !== st.b.reqs.length) bad('agree.requests', `${st.a.reqs.length} requests against ${st.b.reqs.length}`)
    for (let i = 0; i < Math.min(st.a.reqs.length, st.b.reqs.length); i++) {
      const x = clone(st.a.reqs[i].json); const y = clone(st.b.reqs[i].json)
      if (!x || !y) { bad('agree.request', `request ${i} has no JSON body`); continue }
      if (!deepEq(normInput('generateText', x.messages), normInput('generateText', y.messages))) bad('agree.request-messages', `request ${i}: ${short(x.messages)} against ${short(y.messages)}`)
      for (const z of [x, y]) { delete z.messages; delete z.stream; delete z.stream_options; if (z.tools?.length === 0) delete z.tools }
      if (!deepEq(x, y)) bad('agree.request', `request ${i}: ${short(x)} against ${short(y)}`)
      if (!deepEq(st.a.reqs[i].headers, st.b.reqs[i].headers) || st.a.reqs[i].url !== st.b.reqs[i].url) bad('agree.request-headers', `request ${i}: ${st.a.reqs[i].url} ${short(st.a.reqs[i].headers)} against ${st.b.reqs[i].url} ${short(st.b.reqs[i].headers)}`)
    }
    // what the tools and hooks saw
    const ids = new Set([...Object.keys(st.a.calls), ...Object.keys(st.b.calls)])
    for (const id of ids) {
      const x = st.a.calls[id]?.exec.map(e => [e.name, e.input]) ?? []
      const y = st.b.calls[id]?.exec.map(e => [e.name, e.input]) ?? []
      if (!deepEq(x, y)) bad('agree.tools', `call ${id}: executed ${short(x)} against ${short(y)}`)
      for (const h of ['pre', 'post']) if ((st.a.calls[id]?.[h].length ?? 0) !== (st.b.calls[id]?.[h].length ?? 0)) bad('agree.hooks', `call ${id}: ${h}ToolCall ran ${st.a.calls[id]?.[h].length ?? 0} against ${st.b.calls[id]?.[h].length ?? 0} times`)
    }
    if (a.k === 'rejected') {
      const x = a.error; const y = b.error
      const E = L.xsai
      const kind = e => Object.keys(E).filter(k => /Error$/.test(k) && typeof E[k]?.isInstance === 'function' && E[k].isInstance(e)).sort().join() || e?.name
      if (kind(x) !== kind(y)) bad('agree.error', `${show(x)} against ${show(y)}`)
      for (const f of ['code', 'statusCode', 'responseBody', 'reason']) if (!deepEq(clone(x?.[f]), clone(y?.[f]))) bad('agree.error', `error ${f}: ${short(x?.[f])} against ${short(y?.[f])}`)
      return out
    }
    if (!deepEq(a.steps.map(stepOf), b.steps.map(stepOf))) bad('agree.steps', `${short(a.steps.map(stepOf))} against ${short(b.steps.map(stepOf))}`)
    if (!deepEq(normInput('generateText', clone(a.messages)), normInput('generateText', clone(b.messages)))) bad('agree.messages', `${short(a.messages)} against ${short(b.messages)}`)
    if (!deepEq(clone(a.usage), clone(b.usage))) bad('agree.usage', `${short(a.usage)} against ${short(b.usage)}`)
    if (!deepEq(clone(a.totalUsage), clone(b.totalUsage))) bad('agree.totalUsage', `${short(a.totalUsage)} against ${short(b.totalUsage)}`)
    return out
  },
  nontrivial: busyRun,
}
