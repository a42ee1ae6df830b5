import { BUSY, convProp } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C17 from './C17.mjs'
import C20 from './C20.mjs'
import C21 from './C21.mjs'
import C26 from './C26.mjs'

const own = convProp({
  id: 'C07',
  profile: rng => ({ apis: ['streamText', 'streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [1, 4], callsP: 0.85, hooks: rng.bool(0.3), toolFaults: 0.1, consumers: rng.bool(0.6) ? 'all' : 'mixed', abortP: 1, faultP: 0.1, prepareP: 0.2, oddErrP: 0.08 }),
  groups: ['abort', 'settle', 'loop.extra-request'],
  rule: BUSY,
  assumptions: ['the transport honours the abort signal it is given (as fetch does); a tool that ignores the signal settles on its own'],
})

export default mixProps(own, [
  [0.08, 'C26', C26, ['unary.abort-request', 'unary.abort-reason', 'unary.pending', 'unary.signal']],
  [0.05, 'C20', C20, ['speech.abort', 'speech.pending']],
  [0.05, 'C21', C21, ['transcribe.pending']],
  [0.06, 'C17', C17, ['retry.abort-pending', 'retry.abort-request', 'retry.abort-reason', 'retry.abort-ignored']],
])
