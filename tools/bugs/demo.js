// A stand-in for the editor: loads vscode-extension/src/extension.ts of the current folder, and runs case.js on it
const fs = require('fs'), Module = require('module'), path = require('path')
const ts = require('/opt/veriftools/node/node_modules/typescript')
const source = path.resolve('vscode-extension/src/extension.ts')
const js = ts.transpileModule(fs.readFileSync(source, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true } }).outputText
const h = { calls: [], clients: [] }   // calls: {k, arg, resolve, reject}
const call = (k, ...arg) => new Promise((resolve, reject) => h.calls.push({ k, arg, resolve, reject }))
class LanguageClient {
  constructor (id, name, server, options) { Object.assign(this, { server, options, handlers: {} }); h.clients.push(this) }
  onRequest (m, f) { this.handlers[m] = f; return { dispose () {} } }
  onNotification () { return { dispose () {} } }
  start () { return Promise.resolve() }
  stop () { return call('stop') }
}
const vscode = {
  commands: { executeCommand: (...a) => call('preview', ...a), registerCommand: () => ({ dispose () {} }) },
  window: { showErrorMessage: (...a) => call('error', ...a), showTextDocument: (...a) => call('show', ...a), showInformationMessage: () => Promise.resolve() },
  workspace: { openTextDocument: (...a) => call('open', ...a) }
}
const load = Module._load
Module._load = function (n, ...r) { return n === 'vscode' ? vscode : n.startsWith('vscode-languageclient') ? { LanguageClient } : load.call(this, n, ...r) }
const m = new Module(source); m._compile(js, source)
h.ext = m.exports
h.quiet = async () => { for (let i = 0; i < 10; i++) await new Promise(resolve => setImmediate(resolve)) }
h.activate = async () => { await h.ext.activate({ subscriptions: [], asAbsolutePath: p => path.join('/ext', p) }); await h.quiet() }
h.ask = async p => { const r = { state: 'waiting' }; h.clients[0].handlers['hyperir/showDot'](p, {}).then(v => { r.state = 'ok'; r.value = v }, () => { r.state = 'failed' }); await h.quiet(); return r }
h.settle = async (c, v, fail) => { if (fail) c.reject(new Error('no')); else c.resolve(v); await h.quiet() }
h.eq = (a, b) => { if (JSON.stringify(a) !== JSON.stringify(b)) { console.log('got', JSON.stringify(a), 'instead of', JSON.stringify(b)); process.exit(1) } }
h.last = () => h.calls[h.calls.length - 1]
process.on('unhandledRejection', () => {})
delete process.env.SERVER_PATH
require(path.join(__dirname, 'case.js'))(h).then(() => process.exit(0), e => { console.log(e); process.exit(1) })
