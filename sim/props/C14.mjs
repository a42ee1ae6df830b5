import { BUSY, convProp, REAL } from '../conv-prop.mjs'

export default convProp({
  id: 'C14',
  profile: rng => ({ apis: ['responses'], turns: [1, 4], hooks: rng.bool(0.5), toolFaults: 0.2, consumers: rng.bool(0.5) ? 'all' : 'mixed', faultP: 0.2, prepareP: 0.2, respTerminals: 1.5, longText: true, oddErrP: 0.04 }),
  groups: ['deliver', 'events', 'history', 'tools', 'contain', 'loop', 'usage', 'request', 'prepare', 'settle', 'errors'],
  rule: BUSY,
  real: [...REAL.responses, ...REAL.stream],
  assumptions: ['a stream that ends without a terminal event ends the call normally without a step; what its promises then contain is only checked loosely'],
})
