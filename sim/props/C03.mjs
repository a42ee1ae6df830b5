import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C03',
  profile: rng => ({ apis: ['streamText', 'streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [2, 5], callsP: 0.95, maxCalls: 5, hooks: rng.bool(0.3), toolFaults: 0.12, consumers: rng.bool(0.6) ? 'all' : 'mixed', faultP: 0.08 }),
  groups: ['tools', 'history', 'loop.missing-request', 'loop.extra-request', 'errors.spurious', 'settle.pending', 'settle.sync-throw'],
  rule: BUSY,
})
