import { mixProps } from '../mix-prop.mjs'
import { make } from './C26.mjs'
import { BUSY, convProp, REAL } from '../conv-prop.mjs'

/** does the untraced call run a tool's methods as methods of the tool? */
const plainThis = async (L) => {
  const seen = {}
  const t = { type: 'function', function: { name: 't', parameters: {} }, execute() { seen.execute = this?.function?.name === 't'; return 'x' }, validate(value) { seen.validate = this?.function?.name === 't'; return { value } } }
  const answer = JSON.stringify({ choices: [{ finish_reason: 'tool_calls', message: { role: 'assistant', content: '', tool_calls: [{ id: 'c', type: 'function', function: { name: 't', arguments: '{}' } }] } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } })
  try {
    await L.xsai.generateText({ baseURL: 'http://probe.test/', model: 'm', messages: [], tools: [t], stopWhen: L.xsai.stepCountAtLeast(2), fetch: async () => ({ ok: true, status: 200, headers: new Headers(), body: new ReadableStream(), text: async () => answer, json: async () => JSON.parse(answer) }) })
  }
  catch {}
  return seen
}

const conv = convProp({
  id: 'C22',
  real: REAL.tel,
  profile: rng => ({ apis: ['tel.streamText', 'tel.streamText', 'tel.generateText'], hooks: rng.bool(0.5), toolFaults: 0.2, consumers: rng.bool(0.6) ? 'all' : 'mixed', faultP: 0.2, abortP: rng.bool(0.2) ? 1 : 0, prepareP: 0.25, fatalP: 0.05, oddErrP: 0.06 }),
  groups: ['deliver', 'history', 'errors', 'settle', 'events', 'tools', 'loop', 'usage', 'abort', 'prepare', 'isolate', 'request', 'consumers', 'contain', 'bodies'],
  rule: BUSY,
  extra: (w, L, sc, o) => o.thisLost && o.plainThis?.[o.thisLost] ? [{ rule: 'tools.this', msg: `[${sc.api}] ${o.thisLost} of a tool is called without the tool it belongs to, unlike in the untraced call` }] : [],
})
const own = {
  ...conv,
  main: async (w, L, sc) => {
    const plain = await plainThis(L)
    const o = await conv.main(w, L, sc)
    o.plainThis = plain
    return o
  },
}

export default mixProps(own, [[0.12, 'embed', make(['tel.embed', 'tel.embedMany']), null]])
