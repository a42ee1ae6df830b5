import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C10',
  profile: rng => ({ apis: ['streamText', 'streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [1, 5], callsP: 0.9, hooks: false, toolFaults: 0.1, consumers: rng.bool(0.6) ? 'all' : 'mixed', usageP: rng.pick([1, 0.7, 0.3]), respTerminals: 1, faultP: 0.05 }),
  groups: ['usage', 'events.usage', 'loop.result', 'loop.onStepFinish-arg', 'errors.spurious', 'settle.pending', 'settle.sync-throw'],
  rule: BUSY,
})
