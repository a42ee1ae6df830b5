import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C11',
  profile: rng => ({ apis: ['streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [1, 5], callsP: 0.9, hooks: rng.bool(0.2), toolFaults: 0.1, consumers: 'all', prepareP: 1, cbFaultP: 0.12, cbFaults: ['prepareStep'] }),
  groups: ['prepare', 'errors.swallowed', 'errors.type', 'history', 'loop.step-count', 'loop.missing-request', 'loop.extra-request', 'errors.spurious', 'settle.pending', 'settle.sync-throw', 'request.options', 'tools.results', 'tools.calls', 'deliver.step-text'],
  tweak: (sc, rng) => { if (sc.cbFault === 'prepareStep') { sc.cbFaultAt = rng.int(4); sc.cbFaultAsync = rng.bool() } },
  rule: BUSY,
})
