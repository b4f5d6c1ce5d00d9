//! C25: the MCP server as a JSON-RPC peer.
use crate::docs::Toy;
use crate::nav::Svc;
use kit::*;
use oak_core::errors::OakError;
use oak_core::{Range, UniversalElementRole as ER};
use oak_lsp::service::LanguageService;
use oak_lsp::types::{CompletionItem, CompletionItemKind, Diagnostic, DiagnosticSeverity, Hover, LocationRange, StructureItem, SymbolKind};
use oak_lsp::workspace::WorkspaceManager;
use oak_mcp::{McpServer, SemanticSearch};
use oak_vfs::{MemoryVfs, Vfs};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// A service whose answers are functions of its arguments and that notes what it was asked.
struct Answers {
    inner: Svc<MemoryVfs>,
    asked: Arc<Mutex<Vec<String>>>,
}
fn n(uri: &str, off: usize) -> usize {
    (uri.len() + off) % 4
}
impl LanguageService for Answers {
    type Lang = Toy;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.inner.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.inner.ws
    }
    fn hover(&self, uri: &str, r: Range<usize>) -> impl Future<Output = Option<Hover>> + Send + '_ {
        self.asked.lock().unwrap().push(format!("hover {uri} {}..{}", r.start, r.end));
        let h = (n(uri, r.start) > 0).then(|| Hover { contents: format!("hover \"{uri}\"\n{}", r.start), range: None });
        async move { h }
    }
    fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<StructureItem>> + Send + 'a {
        self.asked.lock().unwrap().push(format!("symbols {uri}"));
        let v = (0..n(uri, 0)).map(|i| StructureItem { name: format!("{uri}{i}"), detail: None, role: ER::Definition, kind: SymbolKind::Function, range: (i..i + 3).into(), selection_range: (i..i + 1).into(), deprecated: false, children: vec![] }).collect();
        async move { v }
    }
    fn definition<'a>(&'a self, uri: &'a str, r: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a {
        self.asked.lock().unwrap().push(format!("definition {uri} {}..{}", r.start, r.end));
        let v = (0..n(uri, r.start)).map(|i| LocationRange { uri: uri.into(), range: (i..r.start + i).into() }).collect();
        async move { v }
    }
    fn references<'a>(&'a self, uri: &'a str, r: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a {
        self.asked.lock().unwrap().push(format!("references {uri} {}..{}", r.start, r.end));
        let v = (0..n(uri, r.start + 1)).map(|i| LocationRange { uri: uri.into(), range: (i..i + 7).into() }).collect();
        async move { v }
    }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<Diagnostic>> + Send + 'a {
        self.asked.lock().unwrap().push(format!("diagnostics {uri}"));
        let v = (0..n(uri, 1)).map(|i| Diagnostic { range: (i..i + 2).into(), severity: Some(DiagnosticSeverity::Warning), code: None, source: None, message: format!("é{i}\n") }).collect();
        async move { v }
    }
    fn completion<'a>(&'a self, uri: &'a str, off: usize) -> impl Future<Output = Vec<CompletionItem>> + Send + 'a {
        self.asked.lock().unwrap().push(format!("completion {uri} {off}"));
        let v = (0..n(uri, off)).map(|i| CompletionItem { label: format!("l{i}"), kind: Some(CompletionItemKind::Text), detail: None, documentation: None, insert_text: Some("x".into()) }).collect();
        async move { v }
    }
}
/// (uri text, offset, length of the answer per tool) is enough to know an answer again
fn answer(tool: &str, uri: &str, off: usize) -> Value {
    let run = futures::executor::block_on::<std::pin::Pin<Box<dyn Future<Output = Value>>>>;
    let uri = uri.to_string();
    let tool = tool.to_string();
    run(Box::pin(async move {
        let a = Answers { inner: Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), roots: HashMap::new() }, asked: Default::default() };
        let r = Range { start: off, end: off };
        match tool.as_str() {
            "hover" => json!(a.hover(&uri, r).await.map(|h| h.contents).unwrap_or_default()),
            "symbols" => json!(a.document_symbols(&uri).await),
            "definition" => json!(a.definition(&uri, r).await),
            "references" => json!(a.references(&uri, r).await),
            "diagnostics" => json!(a.diagnostics(&uri).await),
            _ => json!(a.completion(&uri, off).await),
        }
    }))
}
struct Search(Arc<Mutex<Vec<String>>>);
impl SemanticSearch for Search {
    async fn search(&self, q: &str, limit: usize) -> Result<Vec<String>, OakError> {
        self.0.lock().unwrap().push(format!("search {q} {limit}"));
        if q.contains("fail") { Err(OakError::semantic_error("no \"luck\"")) } else { Ok((0..limit.min(3)).map(|i| format!("{q}{i}")).collect()) }
    }
}
/// A reader that hands out pieces and sometimes is not ready, and a writer that takes few bytes at a time.
struct Pipe {
    input: Vec<u8>,
    at: usize,
    steps: Vec<usize>,
    k: usize,
    /// What came out so far, and how many lines the client waits for before it sends the bytes from there on.
    out: Arc<Mutex<Vec<u8>>>,
    needs: Vec<(usize, usize)>,
    waited: usize,
    impatient: Arc<Mutex<Option<String>>>,
}
impl tokio::io::AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let s = self.steps[self.k % self.steps.len()];
        self.k += 1;
        if s == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let at = self.at;
        let need = self.needs.iter().filter(|n| n.0 <= at).map(|n| n.1).max().unwrap_or(0);
        let came = self.out.lock().unwrap().iter().filter(|b| **b == b'\n').count();
        if came < need {
            // the client waits for the answer, though not forever
            self.waited += 1;
            if self.waited < 1000 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            self.impatient.lock().unwrap().get_or_insert(format!("{came} answers came, but {need} requests were sent before the server waits for more input"));
        }
        self.waited = 0;
        let n = s.min(buf.remaining()).min(self.input.len() - at);
        buf.put_slice(&self.input[at..at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}
struct Sink {
    out: Arc<Mutex<Vec<u8>>>,
    /// Bytes that wait for a flush, if the writer is a buffering one.
    held: Option<Vec<u8>>,
    steps: Vec<usize>,
    k: usize,
}
impl tokio::io::AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let s = self.steps[self.k % self.steps.len()];
        self.k += 1;
        if s == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = s.min(b.len());
        if let Some(h) = &mut self.held {
            h.extend_from_slice(&b[..n])
        } else {
            self.out.lock().unwrap().extend_from_slice(&b[..n]);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if let Some(h) = &mut self.held {
            let b = std::mem::take(h);
            self.out.lock().unwrap().extend(b)
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn steps(g: &mut Gen) -> Vec<usize> {
    let mut v: Vec<usize> = (0..g.range(1, 4)).map(|_| *g.pick(&[10_000, 1, 7, 0, 100])).collect();
    if v.iter().all(|s| *s == 0) {
        v.push(3)
    }
    v
}
#[derive(Clone, Debug)]
enum Want {
    /// id, result
    Ok(Value, Value),
    /// id, the text of the content as JSON
    Text(Value, Value),
    /// id, code (0: any), part of the message
    Err(Value, i64, String),
    /// tools/list
    Tools(Value),
}
const TOOLS: &[&str] = &["hover", "symbols", "definition", "references", "diagnostics", "completion"];
fn uri(g: &mut Gen) -> String {
    g.pick(&["file:///a.toy", "b", "é", "", "a\"b\\c", "line\nbreak"]).to_string()
}
fn id(g: &mut Gen) -> Value {
    match g.usize(5) {
        0 => json!(g.below(100)),
        1 => json!(format!("id{}", g.below(9))),
        2 => json!(-5),
        3 => json!("é\n\""),
        _ => json!(u32::MAX),
    }
}

fn rpc(g: &mut Gen, c: &mut Case) -> Res {
    let asked = Arc::new(Mutex::new(Vec::new()));
    let searching = g.bool();
    let mut input: Vec<u8> = Vec::new();
    let mut want: Vec<Want> = Vec::new();
    let mut asks: Vec<String> = Vec::new();
    let mut store: BTreeMap<String, String> = BTreeMap::new();
    let mut kinds = [0; 4];
    let mut needs = Vec::new();
    let lines = g.range(0, 14);
    for k in 0..lines {
        let line = match g.weighted(&[10, 2, 2, 3, 2, 4, 1]) {
            0 => {
                // a tool call
                kinds[0] += 1;
                let i = id(g);
                let tool = match g.weighted(&[8, 2, 3, 1]) {
                    0 => *g.pick(TOOLS),
                    1 => "set_file_content",
                    2 => *g.pick(&["search", "semantic_search"]),
                    _ => *g.pick(&["", "nope", "Hover", "hover "]),
                };
                let u = uri(g);
                let off = g.usize(50);
                let mut args = serde_json::Map::new();
                let needs_offset = matches!(tool, "hover" | "definition" | "references" | "completion");
                let mut missing = None;
                let mut give = |g: &mut Gen, args: &mut serde_json::Map<String, Value>, key: &str, v: Value| {
                    match g.weighted(&[14, 1, 1]) {
                        0 => {
                            args.insert(key.into(), v);
                            return;
                        }
                        1 => {}
                        _ => {
                            args.insert(key.into(), json!([1]));
                        }
                    }
                    if missing.is_none() {
                        missing = Some(key.to_string())
                    }
                };
                let text = if g.bool() { g.pick(&["x", "fail", "é \"q\""]).to_string() } else { text::any(g, 20) };
                let limit = g.usize(6);
                let mut limited = false;
                if tool.contains("search") {
                    give(g, &mut args, "query", json!(text));
                    if g.bool() {
                        args.insert("limit".into(), json!(limit));
                        limited = true
                    }
                } else {
                    give(g, &mut args, "uri", json!(u));
                    if needs_offset {
                        give(g, &mut args, "offset", json!(off));
                    }
                    if tool == "set_file_content" {
                        give(g, &mut args, "content", json!(text));
                    }
                    if g.chance(1, 5) {
                        args.insert("extra".into(), json!({"a": 1}));
                    }
                }
                want.push(if TOOLS.contains(&tool) || tool == "set_file_content" {
                    if let Some(m) = missing {
                        Want::Err(i.clone(), 0, m)
                    } else if tool == "set_file_content" {
                        store.insert(u.clone(), text.clone());
                        Want::Text(i.clone(), Value::Null)
                    } else {
                        asks.push(if needs_offset && tool != "completion" { format!("{tool} {u} {off}..{off}") } else if tool == "completion" { format!("{tool} {u} {off}") } else { format!("{tool} {u}") });
                        Want::Text(i.clone(), answer(tool, &u, off))
                    }
                } else if tool.contains("search") {
                    if !searching {
                        Want::Err(i.clone(), 0, "earch".into())
                    } else if let Some(m) = missing {
                        Want::Err(i.clone(), 0, m)
                    } else {
                        let l = if limited { limit } else { 5 };
                        asks.push(format!("search {text} {l}"));
                        if text.contains("fail") { Want::Err(i.clone(), 0, "no \"luck\"".into()) } else { Want::Text(i.clone(), json!((0..l.min(3)).map(|i| format!("{text}{i}")).collect::<Vec<_>>())) }
                    }
                } else {
                    Want::Err(i.clone(), 0, tool.to_string())
                });
                let params = json!({"name": tool, "arguments": args});
                json!({"jsonrpc": "2.0", "id": i, "method": "tools/call", "params": params}).to_string()
            }
            1 => {
                let i = id(g);
                want.push(Want::Ok(i.clone(), json!({"protocolVersion": "2024-11-05", "serverInfo": {"name": "oak-mcp"}})));
                json!({"jsonrpc": "2.0", "id": i, "method": "initialize", "params": {"protocolVersion": "2024-11-05"}}).to_string()
            }
            2 => {
                let i = id(g);
                want.push(Want::Tools(i.clone()));
                json!({"id": i, "method": "tools/list", "jsonrpc": "2.0"}).to_string()
            }
            3 => {
                kinds[1] += 1;
                let m = *g.pick(&["notifications/initialized", "initialize", "tools/call", "", "x"]);
                json!({"jsonrpc": "2.0", "method": m, "params": {"name": "set_file_content", "arguments": {"uri": "notified", "content": "x"}}}).to_string()
            }
            4 => {
                let i = id(g);
                let m = *g.pick(&["tools/Call", "", "shutdown", "é", "tools"]);
                want.push(Want::Err(i.clone(), -32601, m.to_string()));
                json!({"jsonrpc": "2.0", "id": i, "method": m}).to_string()
            }
            5 => {
                kinds[2] += 1;
                let i = id(g);
                match g.usize(9) {
                    0 => {
                        want.push(Want::Err(Value::Null, -32700, String::new()));
                        "{".to_string()
                    }
                    1 => {
                        want.push(Want::Err(Value::Null, -32700, String::new()));
                        "hello é".to_string()
                    }
                    2 => {
                        want.push(Want::Err(Value::Null, -32700, String::new()));
                        let s = json!({"jsonrpc": "2.0", "id": i, "method": "initialize"}).to_string();
                        s[..s.len() - 1].to_string()
                    }
                    3 => {
                        want.push(Want::Err(Value::Null, -32600, String::new()));
                        g.pick(&["1", "null", "\"x\"", "{}", "true"]).to_string()
                    }
                    4 => {
                        want.push(Want::Err(i.clone(), -32600, String::new()));
                        json!({"jsonrpc": "2.0", "id": i}).to_string()
                    }
                    5 => {
                        want.push(Want::Err(i.clone(), -32600, String::new()));
                        json!({"jsonrpc": "2.0", "id": i, "method": 7}).to_string()
                    }
                    6 => {
                        want.push(Want::Err(i.clone(), 0, String::new()));
                        json!({"jsonrpc": "2.0", "id": i, "method": "tools/call"}).to_string()
                    }
                    7 => {
                        want.push(Want::Err(i.clone(), 0, String::new()));
                        json!({"jsonrpc": "2.0", "id": i, "method": "tools/call", "params": [1]}).to_string()
                    }
                    _ => {
                        want.push(Want::Err(Value::Null, -32600, String::new()));
                        json!({"jsonrpc": "2.0", "method": 7}).to_string()
                    }
                }
            }
            _ => {
                kinds[3] += 1;
                g.pick(&["", " ", "\t"]).to_string()
            }
        };
        let pad = if g.chance(1, 6) { " " } else { "" };
        input.extend(format!("{pad}{line}{pad}").bytes());
        if k + 1 < lines || g.chance(2, 3) {
            input.extend(g.pick(&["\n", "\n", "\n", "\r\n"]).bytes());
            needs.push((input.len(), want.len()));
        }
    }
    if kinds[0] > 1 && kinds[1] > 0 && kinds[2] > 0 {
        c.nontrivial()
    }
    let rs = steps(g);
    let ws = steps(g);
    let cap = g.range(1, 200);
    c.desc(format!("{} reads {rs:?} writes {ws:?} searcher {searching}", String::from_utf8_lossy(&input)));
    let svc = Answers { inner: Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), roots: HashMap::new() }, asked: asked.clone() };
    let out = Arc::new(Mutex::new(Vec::new()));
    let impatient = Arc::new(Mutex::new(None));
    let held = g.bool().then(Vec::new);
    let reader = tokio::io::BufReader::with_capacity(cap, Pipe { input, at: 0, steps: rs, k: 0, out: out.clone(), needs, waited: 0, impatient: impatient.clone() });
    let writer = Sink { out: out.clone(), held, steps: ws, k: 0 };
    let server = McpServer::new(svc);
    let service = server.service.clone();
    let r = if searching { futures::executor::block_on(server.with_searcher(Search(asked.clone())).run(reader, writer)) } else { futures::executor::block_on(server.run(reader, writer)) };
    ensure!(r.is_ok(), "run", "the server ended with {r:?}");
    if let Some(m) = impatient.lock().unwrap().take() {
        return fail("late", m);
    }
    let out = String::from_utf8(out.lock().unwrap().clone());
    ensure!(out.is_ok(), "utf8", "the output is not UTF-8");
    let out = out.unwrap();
    ensure!(out.is_empty() || out.ends_with('\n'), "line", "the output does not end a line: {out:?}");
    let got: Vec<Value> = match out.lines().map(serde_json::from_str).collect::<Result<_, _>>() {
        Ok(v) => v,
        Err(e) => return fail("json", format!("a line of the output is no JSON ({e}): {out}")),
    };
    ensure!(got.len() == want.len(), "responses", "{} responses instead of {}\n{out}\nexpected {want:?}", got.len(), want.len());
    for (r, w) in got.iter().zip(&want) {
        ensure_eq!(r["jsonrpc"], json!("2.0"), "version", "version of {r}");
        ensure!(r.get("id").is_some() && (r.get("result").is_some() != r.get("error").is_some()), "shape", "a response has an id and either a result or an error: {r}");
        match w {
            Want::Ok(id, part) => {
                ensure_eq!(r["id"], *id, "id", "id of {r}");
                ensure_eq!(r["result"]["protocolVersion"], part["protocolVersion"], "initialize", "protocol of {r}");
                ensure_eq!(r["result"]["serverInfo"]["name"], part["serverInfo"]["name"], "initialize", "name of {r}");
                ensure!(r["result"]["capabilities"]["tools"].is_object(), "initialize", "capabilities of {r}");
                ensure!(r["result"]["capabilities"]["tools"]["listChanged"] != true, "initialize", "changes of the tool list, which never come, are promised in {r}");
            }
            Want::Text(id, v) => {
                ensure_eq!(r["id"], *id, "id", "id of {r}");
                ensure!(r["result"]["content"].as_array().is_some_and(|a| a.len() == 1 && a[0]["type"] == "text"), "content", "content of {r}");
                let text = r["result"]["content"][0]["text"].as_str().unwrap_or("");
                let got: Value = serde_json::from_str(text).unwrap_or_else(|_| json!({"not JSON": text}));
                ensure_eq!(got, *v, "answer", "the answer of {r}");
            }
            Want::Err(id, code, part) => {
                ensure_eq!(r["id"], *id, "id", "id of {r}");
                ensure!(r["error"]["code"].is_i64() && (*code == 0 || r["error"]["code"] == json!(code)), "code", "error code of {r}, expected {code}");
                ensure!(r["error"]["message"].as_str().is_some_and(|m| m.contains(part.as_str())), "message", "message of {r} lacks {part:?}");
            }
            Want::Tools(id) => {
                ensure_eq!(r["id"], *id, "id", "id of {r}");
                let names: Vec<&str> = r["result"]["tools"].as_array().map(|a| a.iter().filter_map(|t| t["name"].as_str()).collect()).unwrap_or_default();
                for t in TOOLS.iter().chain(&["semantic_search"]) {
                    ensure!(names.contains(t), "tools", "the tool {t} is not listed");
                }
            }
        }
    }
    ensure_eq!(*asked.lock().unwrap(), asks, "asked", "what the service was asked");
    for (u, t) in &store {
        let s = service.vfs().get_source(u).map(|s| oak_core::source::Source::get_text_from(&s, 0).into_owned());
        ensure_eq!(s.as_deref(), Some(t.as_str()), "stored", "content of {u:?} after set_file_content");
    }
    ensure!(store.contains_key("notified") || service.vfs().get_source("notified").is_none(), "notified", "a notification was carried out as a call");
    Ok(())
}
/// Every tool listed works when called as its schema says.
fn listed(g: &mut Gen, c: &mut Case) -> Res {
    let asked = Arc::new(Mutex::new(Vec::new()));
    let svc = Answers { inner: Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), roots: HashMap::new() }, asked: asked.clone() };
    let server = McpServer::new(svc).with_searcher(Search(asked));
    let call = |m: &str, p: Value| futures::executor::block_on(server.handle_request(oak_mcp::JsonRpcRequest { jsonrpc: "2.0".into(), id: json!(1), method: m.into(), params: Some(p) }));
    let tools = call("tools/list", Value::Null).result.unwrap_or_default();
    let tools = tools["tools"].as_array().cloned().unwrap_or_default();
    ensure!(!tools.is_empty(), "tools", "no tools are listed");
    let all = g.bool();
    for t in &tools {
        let name = t["name"].as_str().unwrap_or_default();
        let schema = &t["inputSchema"];
        ensure!(schema["type"] == "object" && t["description"].is_string(), "schema", "the tool {name} has no schema or description");
        let required: Vec<&str> = schema["required"].as_array().map(|a| a.iter().filter_map(|v| v.as_str()).collect()).unwrap_or_default();
        let mut args = serde_json::Map::new();
        for (k, p) in schema["properties"].as_object().cloned().unwrap_or_default() {
            if required.contains(&k.as_str()) || all {
                args.insert(k, match p["type"].as_str() {
                    Some("string") => json!(text::any(g, 12)),
                    Some("integer") => json!(g.below(40)),
                    _ => json!(true),
                });
            }
        }
        c.desc(format!("{name} {args:?}"));
        c.nontrivial();
        if args.get("query").and_then(|q| q.as_str()).is_some_and(|q| q.contains("fail")) {
            continue;
        }
        let r = call("tools/call", json!({"name": name, "arguments": args.clone()}));
        ensure!(r.error.is_none() && r.result.is_some(), "listed", "the listed tool {name} called with {args:?} fails: {:?}", r.error);
        for k in &required {
            let mut less = args.clone();
            less.remove(*k);
            let r = call("tools/call", json!({"name": name, "arguments": less}));
            ensure!(r.error.is_some() && r.result.is_none(), "required", "{name} works without the required {k}");
        }
    }
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C25",
        rule: "one case = up to 14 lines of input in pieces of any size, all responses compared (session), or every listed tool called as its schema says (tools); non-trivial: two tool calls, a notification and a malformed message / every tools case",
        assumptions: vec!["input lines are UTF-8", "no batches of requests", "the code of a failed tool call is not judged"],
        facets: vec![Facet::new("session", 40_000, 1_500_000, rpc), Facet::new("tools", 15_000, 60_000, listed)],
    }]
}
