// Setup: nothing to install; make sure the code under test bundles and one run executes.
import { mkdtempSync, rmSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { join } from 'node:path'
import { bundle } from './build.mjs'

const tmp = mkdtempSync(join(tmpdir(), 'xsai-sim-'))
try {
  await bundle(join(tmp, 'lib.mjs'))
  console.log('the code under test bundles')
}
finally { rmSync(tmp, { recursive: true, force: true }) }
