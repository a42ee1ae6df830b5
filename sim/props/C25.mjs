import { BUSY, convProp, rejections, uncaught } from '../conv-prop.mjs'
import { mixProps } from '../mix-prop.mjs'
import C15 from './C15.mjs'
import C17 from './C17.mjs'
import C20 from './C20.mjs'
import C21 from './C21.mjs'
import C26 from './C26.mjs'

const own = convProp({
  id: 'C25',
  profile: rng => ({ apis: ['streamText', 'streamText', 'tel.streamText', 'responses', 'responses', 'generateText', 'tel.generateText'], hooks: rng.bool(0.3), toolFaults: 0.15, consumers: rng.bool(0.3) ? 'all' : 'mixed', faultP: 0.6, abortP: rng.bool(0.25) ? 1 : 0, fatalP: 0.15, cbFaultP: 0.15, cbFaults: ['stopWhen', 'prepareStep', 'onFinish'], oddErrP: 0.08 }),
  groups: [],
  opts: sc => ({ watch: sc.watch }),
  tweak: (sc, rng) => {
    const names = ['steps', sc.api === 'responses' ? 'input' : 'messages', 'usage', 'totalUsage']
    sc.watch = rng.bool(0.35) ? [] : names.filter(() => rng.bool())
  },
  extra: (w, L, sc) => [...rejections(w), ...uncaught(w)],
  rule: BUSY,
})

export default mixProps(own, [
  [0.08, 'C20', C20, ['unhandled']],
  [0.06, 'C21', C21, ['unhandled']],
  [0.06, 'C15', C15, ['unhandled']],
  [0.08, 'C26', C26, ['unhandled']],
  [0.05, 'C17', C17, ['unhandled']],
])
