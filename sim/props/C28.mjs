// Option objects handed out by providers belong to one call each.
import { BUSY, busyRun, genProviders, judgeProviders, runProviders } from '../provider-run.mjs'

export default {
  id: 'C28',
  rule: BUSY,
  runs: { quick: 40000, thorough: 8000000 },
  real: ['providers (every generated, manual and special creator)', 'generate-text, stream-text, embed, generate-image, generate-speech, generate-transcription, model', 'shared'],
  stub: ['the provider services and network (scripted)', 'the token service', 'Uint8Array.fromBase64 (this Node lacks it)'],
  assumptions: ['holders edit the options object itself, not objects nested in it'],
  gen: rng => genProviders(rng, { kinds: ['generated', 'generated', 'generated', 'openai', 'custom', 'openai', 'azure', 'player2', 'workersai', 'openrouter', 'anthropic', 'featherless', 'together'], calls: [2, 6], faultP: 0.08, sacP: 0.6, keyFaultP: 0.1 }),
  main: runProviders,
  judge: judgeProviders,
  nontrivial: busyRun,
}
