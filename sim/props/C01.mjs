import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C01',
  profile: rng => ({ apis: ['streamText', 'streamText', 'tel.streamText'], hooks: rng.bool(0.3), toolFaults: 0.1, consumers: rng.bool(0.6) ? 'all' : 'mixed', faultP: 0.15, longText: true }),
  groups: ['deliver', 'history', 'errors.spurious', 'settle.pending', 'settle.stream-open', 'settle.sync-throw'],
  rule: BUSY,
  assumptions: ['a consumer that is not reading may see fragments later; promptness is judged only for consumers that read continuously', 'after a broken body only a prefix is required'],
})
