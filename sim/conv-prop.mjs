// Properties decided on one simulated conversation.
import { genConv } from './chat-gen.mjs'
import { judgeConv, startConv } from './chat-run.mjs'

export const REAL = {
  stream: ['shared-stream', 'shared-chat', 'stream-text', 'shared (errors, request helpers)', 'Node web streams / TextDecoder / EventSource parser', 'caller hooks wiring, stop conditions, tool runner'],
  chat: ['generate-text', 'shared-chat', 'shared'],
  responses: ['responses'],
  tel: ['telemetry wrappers'],
}
export const STUB = ['model provider and network (scripted by the simulator behind the fetch seam)', 'clock, timers, Math.random, crypto.randomUUID (virtual)', 'user code: tools, hooks, callbacks, stream consumers (scripted)']

export const rejections = w => w.unhandled.map(e => ({ rule: 'unhandled.rejection', msg: `unhandled rejection: ${e instanceof Error ? `${e.name}: ${e.message}` : String(e)}` }))
export const uncaught = w => w.uncaught.map(e => ({ rule: 'unhandled.exception', msg: `uncaught exception: ${e instanceof Error ? e.stack : String(e)}` }))

export const convProp = ({ id, profile, groups, rule, runs, opts, tweak, extra, nontrivial, real, assumptions, maxSteps }) => ({
  id,
  rule,
  runs: runs ?? { quick: 16000, thorough: 4000000 },
  real: real ?? REAL.stream,
  stub: STUB,
  assumptions,
  maxSteps,
  gen: (rng, tier) => {
    const p = typeof profile === 'function' ? profile(rng, tier) : profile
    const sc = genConv(rng, p)
    tweak?.(sc, rng)
    return sc
  },
  main: async (w, L, sc) => startConv(w, L, sc, '', opts?.(sc) ?? {}),
  judge: (w, L, sc, o) => {
    const all = judgeConv(o, L)
    const mine = all.filter(v => groups.some(g => v.rule === g || v.rule.startsWith(`${g}.`)))
    return [...mine, ...(extra?.(w, L, sc, o, all) ?? [])]
  },
  nontrivial: (w, sc, o) => nontrivial ? nontrivial(w, sc, o) : busyRun(w),
})

/** a run in which the scheduler had something to decide, or the network did more than one thing */
export const busyRun = w => w.choices.length > 0 || w.requests.length > 1 || Object.keys(w.faults).length > 0 || w.requests.some(r => (r.body?.pieces ?? 0) > 1)
export const BUSY = 'distinct pair of generated scenario and executed schedule (hash of both); non-trivial when the scheduler had at least one choice to make, or more than one request, network piece or injected fault occurred'
