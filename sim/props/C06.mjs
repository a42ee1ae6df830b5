import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C06',
  profile: rng => ({ apis: ['streamText', 'streamText', 'tel.streamText', 'responses'], hooks: rng.bool(0.3), toolFaults: 0.15, consumers: rng.bool(0.4) ? 'all' : 'mixed', faultP: 0.55, cbFaultP: 0.25, cbFaults: ['onFinish', 'stopWhen', 'prepareStep', 'onStepFinish', 'onEvent'], fatalP: 0.08, abortP: rng.bool(0.2) ? 1 : 0, respTerminals: 1.5, oddErrP: 0.12 }),
  groups: ['settle', 'errors.swallowed'],
  tweak: (sc, rng) => { sc.cb.onFinish = rng.bool(0.9); if (sc.cbFault === 'onEvent') { sc.cb.onEvent = true; sc.cbFaultAt = 1 + rng.int(12) } if (sc.cbFault === 'prepareStep') { sc.cbFaultAt = rng.int(3); sc.cbFaultAsync = rng.bool() } },
  rule: BUSY,
})
