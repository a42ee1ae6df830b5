import { BUSY, convProp } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C17 from './C17.mjs'
import C20 from './C20.mjs'
import C21 from './C21.mjs'
import C26 from './C26.mjs'

const own = convProp({
  id: 'C24',
  profile: rng => ({ apis: ['streamText', 'tel.streamText', 'responses', 'responses', 'generateText'], hooks: rng.bool(0.3), toolFaults: 0.15, consumers: rng.bool(0.4) ? 'all' : 'mixed', faultP: 0.5, abortP: rng.bool(0.3) ? 1 : 0, fatalP: 0.15, cbFaultP: 0.1, cbFaults: ['stopWhen', 'prepareStep', 'onFinish', 'onEvent'], oddErrP: 0.06, lingerP: 0.25 }),
  tweak: (sc, rng) => { if (sc.cbFault === 'onEvent') { sc.cb.onEvent = true; sc.cbFaultAt = 1 + rng.int(12) } },
  groups: ['bodies', 'settle.pending'],
  rule: BUSY,
})

export default mixProps(own, [
  [0.08, 'C20', C20, ['speech.leak']],
  [0.06, 'C21', C21, ['transcribe.leak']],
  [0.1, 'C17', C17, ['retry.leak']],
  [0.08, 'C26', C26, ['unary.leak']],
])
