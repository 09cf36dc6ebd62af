// Nothing needs to be built ahead; this shows that the sources can be bundled and run.
import { browserEnv } from './env.mjs'
import { buildSut, REPO } from './sut.mjs'

const sut = await buildSut({ app: '@just-web/app/testing' })
const app = await sut.instantiate(browserEnv()).app.justTestApp().create()
if (app.name !== 'test') throw new Error(`unexpected app name ${app.name}`)
console.log(`sources of ${REPO} can be bundled and run`)
