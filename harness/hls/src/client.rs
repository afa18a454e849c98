//! An editor that talks to the language server.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vpc::{ensure, Fail, R};

/// (line, start, end, code, severity)
pub type Mark = (u64, u64, u64, String, u64);

pub struct Editor {
    server: Child,
    stream: TcpStream,
    buf: Vec<u8>,
    folders: Vec<PathBuf>,
    next: u64,
    /// What is shown for each file.
    pub shown: BTreeMap<String, Vec<Mark>>,
    answers: BTreeMap<u64, Value>,
    log: PathBuf,
}

/// The address of a file, as editors write it.
pub fn uri(p: &Path) -> String {
    let mut s = String::from("file://");
    for b in p.to_str().expect("name").bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~/".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}
fn decoded(uri: &str) -> String {
    let b = uri.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = (b[i] == b'%').then(|| uri.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
        if let Some(h) = hex {
            out.push(h);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).trim_start_matches("file://").to_string()
}
fn folder(p: &Path) -> Value {
    json!({"uri": uri(p), "name": p.file_name().expect("name").to_string_lossy()})
}

impl Editor {
    pub fn start(folders: &[PathBuf]) -> Result<Self, Fail> {
        let listener = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::new("harness", e.to_string()))?;
        let port = listener.local_addr().expect("address").port();
        let exe = std::env::current_exe().expect("own path").with_file_name("vp-hls-server");
        let home = vpc::scratch().join("home");
        std::fs::create_dir_all(&home).expect("scratch");
        let log = vpc::scratch().join("server.log");
        let err = std::fs::File::create(&log).expect("scratch");
        let mut server = Command::new(&exe)
            .arg(port.to_string())
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &home)
            .env("TOKIO_WORKER_THREADS", "3")
            .env("RAYON_NUM_THREADS", "2")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .map_err(|e| Fail::new("harness", format!("{}: {e}", exe.display())))?;
        listener.set_nonblocking(true).expect("socket");
        let end = Instant::now() + Duration::from_secs(60);
        let stream = loop {
            if let Ok((s, _)) = listener.accept() {
                break s;
            }
            if Instant::now() > end {
                let _ = server.kill();
                let _ = server.wait();
                return Err(Fail::new("no connection", "the server does not connect".to_string()));
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        stream.set_nonblocking(false).expect("socket");
        stream.set_read_timeout(Some(Duration::from_millis(5))).expect("socket");
        let _ = stream.set_nodelay(true);
        let mut e = Self { server, stream, buf: vec![], folders: folders.to_vec(), next: 1, shown: BTreeMap::new(), answers: BTreeMap::new(), log };
        let list: Vec<Value> = folders.iter().map(|f| folder(f)).collect();
        e.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {"workspace": {"workspaceFolders": true}}, "workspaceFolders": list}))?;
        e.notify("initialized", json!({}))?;
        Ok(e)
    }
    fn send(&mut self, v: &Value) -> R {
        let t = v.to_string();
        let r = self.stream.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes());
        ensure!(r.is_ok(), "server gone", "{}", self.why());
        Ok(())
    }
    /// What the server said when it went away.
    fn why(&self) -> String {
        std::fs::read_to_string(&self.log).unwrap_or_default()
    }
    pub fn notify(&mut self, method: &str, params: Value) -> R {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        let id = self.ask(method, params)?;
        self.answer(id, method)
    }
    pub fn ask(&mut self, method: &str, params: Value) -> Result<u64, Fail> {
        let id = self.next;
        self.next += 1;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        Ok(id)
    }
    pub fn answer(&mut self, id: u64, method: &str) -> Result<Value, Fail> {
        let end = Instant::now() + Duration::from_secs(60);
        loop {
            if let Some(v) = self.answers.remove(&id) {
                return Ok(v);
            }
            ensure!(Instant::now() < end, "no answer", "to {method}\n{}", self.why());
            self.pump()?;
        }
    }
    /// Read and handle what has arrived, waiting for a moment.
    pub fn pump(&mut self) -> R {
        let mut b = [0; 65536];
        match self.stream.read(&mut b) {
            Ok(0) => return Err(Fail::new("server gone", self.why())),
            Ok(n) => self.buf.extend(&b[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
            Err(e) => return Err(Fail::new("server gone", format!("{e}\n{}", self.why()))),
        }
        while let Some(h) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&self.buf[..h]).to_string();
            let n = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|n| n.trim().parse::<usize>().ok());
            let Some(n) = n else { return Err(Fail::new("protocol", head)) };
            if self.buf.len() < h + 4 + n {
                break;
            }
            let body: Value = serde_json::from_slice(&self.buf[h + 4..h + 4 + n]).map_err(|e| Fail::new("protocol", e.to_string()))?;
            self.buf.drain(..h + 4 + n);
            self.message(&body)?;
        }
        Ok(())
    }
    fn message(&mut self, v: &Value) -> R {
        match (v["method"].as_str(), &v["id"]) {
            (Some("textDocument/publishDiagnostics"), _) => {
                let file = decoded(v["params"]["uri"].as_str().unwrap_or_default());
                let mut marks = vec![];
                for d in v["params"]["diagnostics"].as_array().into_iter().flatten() {
                    let n = |at: &Value, k: &str| at[k].as_u64().unwrap_or(u64::MAX);
                    let (s, e) = (&d["range"]["start"], &d["range"]["end"]);
                    ensure!(n(s, "line") == n(e, "line") || n(s, "line") < n(e, "line"), "range", "{d}");
                    ensure!(d["message"].as_str().is_some_and(|m| !m.is_empty()), "message", "{d}");
                    marks.push((n(s, "line"), n(s, "character"), n(e, "character"), d["code"].as_str().unwrap_or_default().to_string(), d["severity"].as_u64().unwrap_or(0)));
                }
                marks.sort();
                marks.dedup();
                if marks.is_empty() {
                    self.shown.remove(&file);
                } else {
                    self.shown.insert(file, marks);
                }
            }
            (Some("workspace/workspaceFolders"), id) => {
                let list: Vec<Value> = self.folders.iter().map(|f| folder(f)).collect();
                self.send(&json!({"jsonrpc": "2.0", "id": id, "result": list}))?;
            }
            (Some(_), Value::Null) => {}
            (Some(_), id) => self.send(&json!({"jsonrpc": "2.0", "id": id, "result": null}))?,
            (None, id) => {
                ensure!(v["error"].is_null(), "error answer", "{v}");
                if let Some(id) = id.as_u64() {
                    self.answers.insert(id, v["result"].clone());
                }
            }
        }
        Ok(())
    }
    pub fn open(&mut self, p: &Path, text: &str) -> R {
        let lang = if p.extension().is_some_and(|e| e == "sqf") { "sqf" } else { "arma-config" };
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(p), "languageId": lang, "version": 1, "text": text}}))
    }
    pub fn saved(&mut self, p: &Path) -> R {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(p)}}))
    }
    pub fn change_folders(&mut self, added: &[PathBuf], removed: &[PathBuf]) -> R {
        self.folders.retain(|f| !removed.contains(f));
        self.folders.extend(added.to_vec());
        let list = |v: &[PathBuf]| v.iter().map(|f| folder(f)).collect::<Vec<_>>();
        self.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": list(added), "removed": list(removed)}}))
    }
    pub fn hover(&mut self, p: &Path, line: usize, character: usize) -> Result<Value, Fail> {
        self.request("textDocument/hover", json!({"textDocument": {"uri": uri(p)}, "position": {"line": line, "character": character}}))
    }
    /// Ask without waiting for the answer.
    pub fn ask_hover(&mut self, p: &Path, line: usize, character: usize) -> Result<u64, Fail> {
        self.ask("textDocument/hover", json!({"textDocument": {"uri": uri(p)}, "position": {"line": line, "character": character}}))
    }
    /// Wait until this is what is shown.
    pub fn expect(&mut self, want: &BTreeMap<String, Vec<Mark>>, what: &str) -> R {
        let end = Instant::now() + Duration::from_secs(20);
        while self.shown != *want {
            let missing: Vec<_> = want.iter().flat_map(|(f, m)| m.iter().map(move |m| (f, m))).filter(|(f, m)| !self.shown.get(*f).is_some_and(|s| s.contains(m))).collect();
            let extra: Vec<_> = self.shown.iter().flat_map(|(f, m)| m.iter().map(move |m| (f, m))).filter(|(f, m)| !want.get(*f).is_some_and(|s| s.contains(m))).collect();
            if Instant::now() > end {
                ensure!(missing.is_empty(), "not shown", "{what}: {missing:?}, but shown besides: {extra:?}");
                return Err(Fail::new("still shown", format!("{what}: {extra:?}")));
            }
            self.pump()?;
        }
        Ok(())
    }
    /// Let what is under way arrive.
    pub fn settle(&mut self, ms: u64) -> R {
        let end = Instant::now() + Duration::from_millis(ms);
        while Instant::now() < end {
            self.pump()?;
        }
        Ok(())
    }
}
impl Drop for Editor {
    fn drop(&mut self) {
        let _ = self.server.kill();
        let _ = self.server.wait();
    }
}
