import { BUSY, convProp } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C20 from './C20.mjs'
import C21 from './C21.mjs'
import C26 from './C26.mjs'

const own = convProp({
  id: 'C27',
  profile: rng => ({ helpersP: 0.4, historyP: 0.4, apis: ['streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [1, 4], callsP: 0.9, hooks: rng.bool(0.2), toolFaults: 0.1, consumers: 'all', prepareP: 0.25, globalFetchP: 0.35, faultP: 0.05, extraP: 0.4, ownHeadersP: 0.15, toolDefP: 0.5, warmP: 0.15 }),
  groups: ['request', 'history.request', 'prepare.model', 'prepare.input', 'prepare.toolChoice', 'abort.signal', 'loop.missing-request', 'errors.spurious', 'settle.sync-throw', 'settle.pending'],
  rule: BUSY,
})

export default mixProps(own, [
  [0.12, 'C26', C26, ['unary.request', 'unary.auth', 'unary.headers', 'unary.body', 'unary.requests']],
  [0.05, 'C20', C20, ['speech.request']],
  [0.05, 'C21', C21, ['transcribe.request']],
])
