// A stand-in for the extension host: loads vscode-extension/src/extension.ts, replays schedules on it, and records
// every call the extension makes.  It judges nothing.
//   node host.js EXTENSION.TS SCHEDULES.json TRACE.ndjson [SERVER]
const fs = require('fs')
const Module = require('module')
const path = require('path')
const { spawn } = require('child_process')
const ts = require('/opt/veriftools/node/node_modules/typescript')

const [,, source, schedules, out, server] = process.argv
const js = ts.transpileModule(fs.readFileSync(source, 'utf8'), {
  compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true }
}).outputText

// the languages of .hir files
const languages = (JSON.parse(fs.readFileSync(path.join(path.dirname(source), '..', 'package.json'), 'utf8')).contributes?.languages ?? [])
  .filter(l => (l.extensions ?? []).includes('.hir')).map(l => l.id)

const rec = []
let calls, made, current
const ev = e => rec.push(e)

// A call of the extension which the editor answers later
function call (k, extra) {
  const c = ++made
  let settle
  const p = new Promise((resolve, reject) => { settle = ok => ok ? resolve(k === 'open' ? { doc: c } : undefined) : reject(new Error('no')) })
  p.catch(() => {})
  calls.set(c, { k, settle, req: current })
  ev({ e: k, c, r: current, ...extra })
  return p
}

// Whatever else the extension may use is harmless
function lenient (known) {
  return new Proxy(known, {
    get: (t, k) => k in t ? t[k] : typeof k === 'symbol' || k === 'then' ? undefined : lenient(function (...a) { return Promise.resolve(undefined) })
  })
}
const str = x => typeof x === 'string' ? x : '<' + typeof x + '>'

let clients
class LanguageClient {
  constructor (id, name, serverOptions, clientOptions) {
    const r = serverOptions.run ?? serverOptions
    const d = serverOptions.debug ?? serverOptions
    const inherits = x => { const env = x.options?.env ?? process.env; return Object.keys(process.env).every(k => k.startsWith('RUST_') || env[k] === process.env[k]) }
    ev({
      e: 'client',
      run: str(r.command),
      debug: str(d.command),
      inherits: inherits(r) && inherits(d),
      langs: (clientOptions.documentSelector ?? []).map(s => typeof s === 'string' ? s : str(s.language))
    })
    this.handlers = {}
    this.executable = r
    clients.push(this)
    return lenient(this)
  }

  onRequest (m, h) { const n = typeof m === 'string' ? m : m.method; this.handlers[n] = h; ev({ e: 'handler', m: n }); return { dispose () {} } }
  start () { ev({ e: 'start' }); return Promise.resolve() }
  stop () { return call('stop', {}) }
}

const uri = p => lenient({ scheme: 'file', path: p, fsPath: p, toString: () => 'file://' + p })
class Method { constructor (method) { this.method = method } }

const vscode = lenient({
  Uri: lenient({ file: uri, joinPath: (u, ...p) => uri(path.join(u.fsPath, ...p)) }),
  commands: lenient({
    executeCommand: (cmd, arg) => call('preview', { cmd: str(cmd), content: str(arg?.content), title: str(arg?.title) })
  }),
  window: lenient({
    showErrorMessage: () => call('complain', {}),
    showTextDocument: d => call('show', { doc: typeof d?.doc === 'number' ? d.doc : 0 })
  }),
  workspace: lenient({
    openTextDocument: o => call('open', { content: str(o?.content) })
  })
})

const orig = Module._load
Module._load = function (name, ...rest) {
  if (name === 'vscode') return vscode
  if (name.startsWith('vscode-languageclient')) return lenient({ LanguageClient, RequestType: Method, RequestType0: Method, ProtocolRequestType: Method })
  return orig.call(this, name, ...rest)
}

function load () {
  const m = new Module(source)
  m.filename = source
  m.paths = []
  m._compile(js, source)
  return m.exports
}

const quiet = async () => { for (let i = 0; i < 6; i++) await new Promise(resolve => setImmediate(resolve)) }

// Calls belong to the current request, as the host lets things settle before it goes on with another one
async function step (ext, op) {
  if (op.k === 'activate') {
    if (op.env === undefined || op.env === null) delete process.env.SERVER_PATH
    else process.env.SERVER_PATH = op.env
    ev({ e: 'activate', env: op.env ?? '', set: op.env !== undefined && op.env !== null, dir: op.dir, langs: languages })
    await ext.activate(lenient({ subscriptions: [], extensionPath: op.dir, extensionUri: uri(op.dir), asAbsolutePath: p => path.join(op.dir, p) }))
  } else if (op.k === 'ask') {
    current = op.id
    ev({ e: 'ask', id: op.id, valid: typeof op.params.dotGraph === 'string', content: str(op.params.dotGraph), title: str(op.params.title) })
    const h = clients[clients.length - 1]?.handlers['hyperir/showDot']
    if (h === undefined) { ev({ e: 'ack', id: op.id, ok: false, obj: false }) } else {
      Promise.resolve().then(() => h(op.params, lenient({}))).then(
        v => ev({ e: 'ack', id: op.id, ok: true, obj: typeof v === 'object' && v !== null }),
        () => ev({ e: 'ack', id: op.id, ok: false, obj: false }))
    }
  } else if (op.k === 'settle') {
    current = op.id
    const mine = [...calls].filter(([c, x]) => x.req === op.id)
    if (mine.length > 0) {
      const [c, x] = mine[0]
      calls.delete(c)
      ev({ e: 'settle', c, ok: op.ok })
      x.settle(op.ok)
    }
  } else if (op.k === 'deactivate') {
    current = 0
    ev({ e: 'deactivate' })
    const r = ext.deactivate()
    if (r === undefined || r === null) ev({ e: 'deactivated' })
    else Promise.resolve(r).then(() => ev({ e: 'deactivated' }), () => ev({ e: 'deactivated' }))
  } else if (op.k === 'serve') {
    await serve(op)
  }
  await quiet()
  ev({ e: 'quiet' })
}

// The server which the extension would launch is launched, and shows a graph
async function serve (op) {
  const x = clients[clients.length - 1].executable
  let ok = false
  let note = ''
  const p = spawn(x.command, x.args ?? [], { ...(x.options ?? {}), stdio: ['pipe', 'pipe', 'ignore'] })
  p.on('error', e => { note = String(e) })
  p.stdin.on('error', () => {})
  const send = m => { const b = Buffer.from(JSON.stringify({ jsonrpc: '2.0', ...m })); p.stdin.write(`Content-Length: ${b.length}\r\n\r\n`); p.stdin.write(b) }
  await new Promise(resolve => {
    const timer = setTimeout(resolve, 30000)
    const done = () => { clearTimeout(timer); resolve() }
    p.on('close', done)
    let buf = Buffer.alloc(0)
    p.stdout.on('data', d => {
      buf = Buffer.concat([buf, d])
      for (;;) {
        const i = buf.indexOf('\r\n\r\n')
        if (i < 0) return
        const n = parseInt(/Content-Length: (\d+)/i.exec(buf.toString('latin1', 0, i))[1])
        if (buf.length < i + 4 + n) return
        const m = JSON.parse(buf.toString('utf8', i + 4, i + 4 + n))
        buf = buf.subarray(i + 4 + n)
        if (m.id === 1) {
          send({ method: 'initialized', params: {} })
          send({ method: 'textDocument/didOpen', params: { textDocument: { uri: 'file:///w/a.hir', languageId: 'hir', version: 1, text: 'define void @f() {\na:\n  br a\n}\n' } } })
          send({ id: 2, method: 'workspace/executeCommand', params: { command: 'visualize-cfg', arguments: ['file:///w/a.hir', '@f'] } })
        } else if (m.method === 'hyperir/showDot') {
          current = op.id
          ev({ e: 'ask', id: op.id, valid: typeof m.params.dotGraph === 'string', content: str(m.params.dotGraph), title: str(m.params.title) })
          Promise.resolve().then(() => clients[clients.length - 1].handlers['hyperir/showDot'](m.params, lenient({}))).then(
            v => { ev({ e: 'ack', id: op.id, ok: true, obj: typeof v === 'object' && v !== null }); send({ id: m.id, result: v === undefined ? null : v }) },
            () => { ev({ e: 'ack', id: op.id, ok: false, obj: false }); send({ id: m.id, error: { code: -1, message: 'no' } }) })
          quiet().then(() => {
            for (const [c, y] of [...calls]) { calls.delete(c); ev({ e: 'quiet' }); ev({ e: 'settle', c, ok: true }); y.settle(true) }
          })
        } else if (m.id === 2 && !('method' in m)) {
          ok = !('error' in m)
          note = JSON.stringify(m)
          done()
        }
      }
    })
    send({ id: 1, method: 'initialize', params: { processId: null, rootUri: null, capabilities: {} } })
  })
  p.kill('SIGKILL')
  ev({ e: 'served', ok, note })
}

async function main () {
  for (const ops of JSON.parse(fs.readFileSync(schedules, 'utf8'))) {
    calls = new Map(); made = 0; clients = []; current = -1
    const savedPath = process.env.SERVER_PATH
    ev({ e: 'boot' })
    try {
      const ext = load()
      for (const op of ops) await step(ext, op.k === 'activate' && op.env === '<server>' ? { ...op, env: server } : op)
    } catch (x) {
      ev({ e: 'threw', what: String(x) })
    }
    if (savedPath === undefined) delete process.env.SERVER_PATH
    else process.env.SERVER_PATH = savedPath
  }
  fs.writeFileSync(out, rec.map(e => JSON.stringify(e)).join('\n') + '\n')
}
process.on('unhandledRejection', () => {})
main().then(() => process.exit(0))
