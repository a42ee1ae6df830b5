// Bundle the code under test from /repo's working tree (workspace sources, as the
// package manifests resolve them) into one module the simulator can import.
import { existsSync, readFileSync } from 'node:fs'
import { createRequire } from 'node:module'
import { join } from 'node:path'

export const REPO = process.env.SIM_REPO ?? '/repo'

const loadEsbuild = () => {
  const req = createRequire(import.meta.url)
  for (const p of ['/opt/veriftools/node/node_modules/esbuild', `${REPO}/node_modules/.pnpm/node_modules/esbuild`, `${REPO}/node_modules/esbuild`]) {
    if (existsSync(p)) {
      try { return req(p) } catch {}
    }
  }
  throw new Error('esbuild not found')
}

const entryOf = (dir, key = '.') => {
  const pkg = JSON.parse(readFileSync(join(REPO, dir, 'package.json'), 'utf8'))
  let e = typeof pkg.exports === 'string' ? (key === '.' ? pkg.exports : undefined) : pkg.exports?.[key]
  while (e != null && typeof e === 'object') e = e.import ?? e.default ?? Object.values(e)[0]
  if (e == null) {
    for (const c of ['src/index.ts', 'src/index.tsx', 'src/index.js'])
      if (key === '.' && existsSync(join(REPO, dir, c))) return join(REPO, dir, c)
    return undefined
  }
  return join(REPO, dir, e)
}

/**
 * The schema libraries stay outside the bundle, and loading one goes through a seam:
 * a simulated world decides when, and whether, the package arrives.
 */
const schemaLibraries = edit => ({
  name: 'schema-libraries',
  setup(b) {
    const dir = join(REPO, 'packages-top/xsschema')
    b.onResolve({ filter: /^(effect|arktype|sury|valibot|zod|zod-to-json-schema|@valibot\/to-json-schema)(\/|$)/ }, ({ path }) => {
      try { return { path: createRequire(join(dir, 'package.json')).resolve(path), external: true } }
      catch { return { path, external: true } }
    })
    b.onLoad({ filter: /xsschema[\\/]src[\\/].*\.ts$/ }, ({ path }) => ({
      loader: 'ts',
      contents: edit(path, readFileSync(path, 'utf8')).replace(/\bimport\(\s*(['"`])([^'"`.][^'"`$]*)\1\s*\)/g, '(globalThis.__simImport?.("$2") ?? import("$2"))'),
    }))
  },
})

/** sources as they are, or as `edit` would have them */
const edited = edit => ({
  name: 'edited-sources',
  setup(b) {
    b.onLoad({ filter: /[\\/]src[\\/].*\.ts$/ }, ({ path }) => {
      const text = readFileSync(path, 'utf8')
      const contents = edit(path, text)
      return contents === text ? undefined : { contents, loader: 'ts' }
    })
  },
})

/**
 * The ready-made providers read their keys from the environment when they are loaded. They are
 * handed to the simulator as a script, so that every run can load them into an environment of its own.
 */
const readyProviders = async (esbuild, edit) => {
  const dir = join(REPO, 'packages-ext/providers')
  const special = join(dir, 'src/special/index.ts')
  const { outputFiles } = await esbuild.build({
    stdin: { contents: `export * as main from ${JSON.stringify(entryOf('packages-ext/providers'))}\nexport * as special from ${JSON.stringify(special)}\nexport * as create from ${JSON.stringify(entryOf('packages-ext/providers', './create') ?? join(dir, 'src/create.ts'))}`, loader: 'ts', resolveDir: dir, sourcefile: 'ready-entry.ts' },
    bundle: true,
    write: false,
    format: 'iife',
    globalName: '__ready',
    platform: 'node',
    target: 'node22',
    logLevel: 'error',
    legalComments: 'none',
    plugins: [edited(edit), {
      name: 'environment',
      setup(b) {
        b.onResolve({ filter: /^(node:)?process$/ }, () => ({ path: 'process', namespace: 'sim-env' }))
        b.onLoad({ filter: /.*/, namespace: 'sim-env' }, () => ({ contents: 'export default process\nexport const env = process.env', loader: 'js' }))
      },
    }],
  })
  const code = `${outputFiles[0].text}\nreturn __ready`
  return {
    name: 'ready-providers',
    setup(b) {
      b.onResolve({ filter: /^sim:ready-providers$/ }, () => ({ path: 'ready', namespace: 'sim-ready' }))
      b.onLoad({ filter: /.*/, namespace: 'sim-ready' }, () => ({ contents: code, loader: 'text' }))
    },
  }
}

export const bundle = async (outfile, edit = (_path, text) => text) => {
  const esbuild = loadEsbuild()
  const provCreate = entryOf('packages-ext/providers', './create') ?? join(REPO, 'packages-ext/providers/src/create.ts')
  const special = join(REPO, 'packages-ext/providers/src/special/create.ts')
  const contents = `
    export * as xsai from ${JSON.stringify(entryOf('packages-top/xsai'))}
    export * as responsesApi from ${JSON.stringify(entryOf('packages-ext/responses'))}
    export * as telemetry from ${JSON.stringify(entryOf('packages-ext/telemetry'))}
    export * as providers from ${JSON.stringify(provCreate)}
    export * as specialProviders from ${JSON.stringify(special)}
    export * as providerUtils from ${JSON.stringify(join(REPO, 'packages-ext/providers/src/utils/index.ts'))}
    export * as xsfetch from ${JSON.stringify(entryOf('packages-top/xsfetch'))}
    export * as xsschema from ${JSON.stringify(entryOf('packages-top/xsschema'))}
    export { trace } from '@opentelemetry/api'
    export { default as readyProviders } from 'sim:ready-providers'
  `
  await esbuild.build({
    stdin: { contents, loader: 'ts', resolveDir: join(REPO, 'packages-ext/telemetry'), sourcefile: 'sim-entry.ts' },
    bundle: true,
    format: 'esm',
    platform: 'node',
    target: 'node22',
    outfile,
    plugins: [schemaLibraries(edit), edited(edit), await readyProviders(esbuild, edit)],
    logLevel: 'error',
    sourcemap: false,
    legalComments: 'none',
  })
}
