import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C02',
  profile: rng => ({ apis: ['streamText', 'streamText', 'tel.streamText', 'responses'], hooks: rng.bool(0.5), toolFaults: 0.2, consumers: rng.bool(0.5) ? 'all' : 'mixed', faultP: 0.15, callsP: 0.75 }),
  groups: ['events', 'errors.spurious', 'settle.pending', 'settle.stream-open', 'settle.sync-throw'],
  tweak: (sc, rng) => { sc.cb.onEvent = rng.bool(0.8) },
  rule: BUSY,
  assumptions: ['empty deltas may or may not produce an event: concatenations are compared'],
})
