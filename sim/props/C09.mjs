import { BUSY, convProp } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C15 from './C15.mjs'
import C16 from './C16.mjs'
import C20 from './C20.mjs'
import C21 from './C21.mjs'
import C26 from './C26.mjs'

const own = convProp({
  id: 'C09',
  profile: rng => ({ apis: ['streamText', 'streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], hooks: false, toolFaults: 0.1, consumers: rng.bool(0.6) ? 'all' : 'mixed', faultP: 0.95, turns: [1, 3], oddErrP: 0.08, cbFaultP: 0.12, cbFaults: ['onFinish', 'stopWhen', 'prepareStep'] }),
  groups: ['errors', 'settle', 'loop.extra-request'],
  tweak: (sc, rng) => { if (sc.cbFault === 'onFinish' && sc.api.endsWith('generateText')) sc.cbFault = 'stopWhen'; if (sc.cbFault) { sc.cb.onFinish = true; if (rng.bool(0.7)) sc.turns.forEach((t) => { delete t.fault }) } if (sc.cbFault === 'prepareStep') { sc.cbFaultAt = rng.int(3); sc.cbFaultAsync = rng.bool() } },
  rule: BUSY,
})

export default mixProps(own, [
  [0.12, 'C26', C26, ['unary.swallowed', 'unary.error', 'unary.threw']],
  [0.06, 'C20', C20, ['speech.swallowed', 'speech.error']],
  [0.06, 'C21', C21, ['transcribe.swallowed', 'transcribe.error']],
  [0.06, 'C16', C16, ['object.swallowed', 'object.empty']],
  [0.06, 'C15', C15, ['object.swallowed', 'object.empty']],
])
