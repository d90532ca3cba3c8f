BUGS=[]
F="vscode-extension/src/extension.ts"
def bug(id,needs,breaks,edits,case): BUGS.append(dict(id=id,property="C20",needs=needs,breaks=breaks,edits=[(F,a,b) for a,b in edits],case=case))
bug("c20-empty-graph","a request whose graph is the empty string","a graph is rejected as malformed",
 [("typeof dotGraph !== 'string'","typeof dotGraph !== 'string' || dotGraph === ''")],'''
  await h.activate()
  await h.ask({ dotGraph: '', title: 't' })
  h.eq(h.last().k, 'preview')
''')
bug("c20-ack-early","the preview command fails","success is reported for a graph which is not shown (yet)",
 [("    await commands.executeCommand(graphVizCommand","    void commands.executeCommand(graphVizCommand")],'''
  await h.activate()
  const r = await h.ask({ dotGraph: 'a', title: 't' })
  h.eq(r.state, 'waiting')
''')
bug("c20-last-graph","two graphs are asked for before the preview of the first has failed","the text editor shows the graph of another request",
 [("let client: LanguageClient | null = null;","let client: LanguageClient | null = null;\nlet shownGraph = '';"),
  ("    const graphVizCommand =","    shownGraph = dotGraph;\n    const graphVizCommand ="),
  ("          content: dotGraph\n","          content: shownGraph\n")],'''
  await h.activate()
  await h.ask({ dotGraph: 'a', title: 't' })
  const c = h.last()
  await h.ask({ dotGraph: 'b', title: 't' })
  await h.settle(c, undefined, true)
  h.eq(h.last().arg[0].content, 'a')
''')
bug("c20-once","the preview fails for one graph, and another one is asked for afterwards","the preview is never tried again, although the viewer may have been installed since",
 [("let client: LanguageClient | null = null;","let client: LanguageClient | null = null;\nlet hasViewer = true;"),
  ("    await commands.executeCommand(graphVizCommand, { content: dotGraph, title: params.title })","    await (hasViewer ? commands.executeCommand(graphVizCommand, { content: dotGraph, title: params.title }) : Promise.reject(new Error('no viewer')))"),
  ("      .then(undefined, async () => {","      .then(undefined, async () => {\n        hasViewer = false;")],'''
  await h.activate()
  await h.ask({ dotGraph: 'a', title: 't' })
  await h.settle(h.last(), undefined, true)
  await h.ask({ dotGraph: 'b', title: 't' })
  h.eq(h.last().k, 'preview')
''')
bug("c20-swallow","neither the preview nor the text editor can show the graph","success is reported although nothing is shown",
 [("          await window.showTextDocument(newDocument);\n        });","          await window.showTextDocument(newDocument);\n        }).then(undefined, () => {});")],'''
  await h.activate()
  const r = await h.ask({ dotGraph: 'a', title: 't' })
  await h.settle(h.last(), undefined, true)
  await h.settle(h.last(), undefined, true)
  h.eq(r.state, 'failed')
''')
bug("c20-stop","the server takes its time to stop","the extension ends before the server has, which is killed half way",
 [("  return client.stop();","  void client.stop();\n  return undefined;")],'''
  await h.activate()
  const p = h.ext.deactivate()
  let over = false
  Promise.resolve(p).then(() => { over = true })
  await h.quiet()
  h.eq(over, false)
  await h.settle(h.last(), undefined)
  h.eq(over, true)
''')
bug("c20-debug","SERVER_PATH is set and the extension is launched in debug mode","another server than the chosen one is launched",
 [("    debug: run\n","    debug: { ...run, command: context.asAbsolutePath('hyper-ir-lsp') }\n")],'''
  process.env.SERVER_PATH = '/s/server'
  await h.activate()
  h.eq([h.clients[0].server.run.command, h.clients[0].server.debug.command], ['/s/server', '/s/server'])
''')
bug("c20-env","a variable of the environment matters to the server (e.g. HOME, LD_LIBRARY_PATH)","the server does not inherit the environment",
 [("        ...process.env,\n","")],'''
  process.env.FOO_X = '1'
  await h.activate()
  h.eq(h.clients[0].server.run.options.env.FOO_X, '1')
''')
bug("c20-trim","a graph with blanks at its ends","the graph is changed on its way to the text editor",
 [("          content: dotGraph\n","          content: dotGraph.trim()\n")],'''
  await h.activate()
  await h.ask({ dotGraph: 'a\\n', title: 't' })
  await h.settle(h.last(), undefined, true)
  h.eq(h.last().arg[0].content, 'a\\n')
''')
