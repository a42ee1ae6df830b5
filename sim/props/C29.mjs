// Providers that change requests or responses: authentication, URLs, bodies, failures.
import { BUSY, busyRun, genProviders, judgeProviders, runProviders } from '../provider-run.mjs'

export default {
  id: 'C29',
  rule: BUSY,
  runs: { quick: 40000, thorough: 8000000 },
  real: ['providers (azure, player2, workers-ai, openrouter, anthropic, featherless, together)', 'generate-text, stream-text, embed, generate-speech, generate-transcription, model', 'shared'],
  stub: ['the provider services and network (scripted)', 'the token service', 'Uint8Array.fromBase64 (this Node lacks it)'],
  assumptions: [],
  gen: rng => genProviders(rng, { kinds: ['azure', 'azure', 'azure', 'custom', 'player2', 'player2', 'openrouter', 'openrouter', 'anthropic', 'featherless', 'together', 'workersai'], calls: [1, 4], faultP: 0.35, sacP: 0.1, keyFaultP: 0.3 }),
  main: runProviders,
  judge: judgeProviders,
  nontrivial: busyRun,
}
