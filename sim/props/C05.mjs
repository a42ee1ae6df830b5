import { BUSY, convProp } from '../conv-prop.mjs'
import { STOPS } from '../chat-model.mjs'

export default convProp({
  id: 'C05',
  profile: rng => ({ apis: ['streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [1, 6], callsP: 0.9, maxCalls: 3, hooks: rng.bool(0.3), toolFaults: 0.15, consumers: rng.bool(0.7) ? 'all' : 'mixed', faultP: 0.08, stop: STOPS, longP: 0.02, respTerminals: 1.5 }),
  groups: ['loop', 'errors.spurious', 'settle.pending', 'settle.sync-throw', 'tools.unexpected'],
  tweak: (sc, rng) => { sc.cb.onStepFinish = rng.bool(0.85) },
  rule: BUSY,
})
