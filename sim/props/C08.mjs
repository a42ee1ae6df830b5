import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C08',
  profile: rng => ({ apis: ['streamText', 'streamText', 'tel.streamText', 'responses'], hooks: rng.bool(0.2), toolFaults: 0.1, consumers: 'mixed', faultP: 0.1, longText: true, bulkP: 0.03 }),
  groups: ['deliver', 'consumers', 'settle', 'events', 'history', 'tools', 'loop', 'errors.spurious'],
  tweak: (sc, rng) => {
    // at least one stream is read to its end, at least one is not
    const names = rng.shuffle(['text', 'reasoning', 'event', 'full'])
    sc.consumers[names[0]] = { mode: 'read' }
    if (rng.bool(0.8)) sc.consumers[names[1]] = rng.pick([{ mode: 'ignore' }, { mode: 'slow', late: true }, { mode: 'cancel', after: rng.int(4), deferred: rng.bool() }])
    if (rng.bool(0.2)) {
      // an output cancelled from inside a callback, while the library is delivering to it
      sc.cb.onEvent = true
      sc.consumers[names[2]] = { mode: 'read', inCb: 1 + rng.int(10) }
    }
    if (rng.bool(0.15)) for (const n of names) sc.consumers[n] = rng.pick([{ mode: 'ignore' }, { mode: 'cancel', after: rng.int(3) }])
  },
  rule: BUSY,
})
