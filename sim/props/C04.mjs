import { BUSY, convProp } from '../conv-prop.mjs'

export default convProp({
  id: 'C04',
  profile: () => ({ apis: ['streamText', 'streamText', 'generateText', 'responses', 'tel.streamText', 'tel.generateText'], turns: [2, 4], callsP: 0.95, maxCalls: 4, hooks: true, toolFaults: 0.5, consumers: 'all', fatalP: 0.12 }),
  groups: ['contain', 'tools', 'history', 'errors', 'loop.missing-request', 'settle.pending', 'settle.sync-throw'],
  rule: BUSY,
  assumptions: ['hook and tool error texts are required to appear in the failure text handed to the model; its exact wording is not'],
})
