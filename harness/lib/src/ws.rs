//! In-memory workspaces.
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::{Code, Processed, WorkspaceFiles};
use hemtt_workspace::{Workspace, WorkspacePath};
use std::io::Write;
use std::sync::Arc;

/// A workspace held in memory with the given files (paths with `/`).
pub fn memory<S: AsRef<str>>(files: &[(S, String)]) -> WorkspacePath {
    let root = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).expect("workspace");
    for (p, t) in files {
        put(&root, p.as_ref(), t.as_bytes());
    }
    root
}
pub fn put(root: &WorkspacePath, path: &str, data: &[u8]) {
    let mut at = String::new();
    let parts: Vec<&str> = path.split('/').filter(|x| !x.is_empty()).collect();
    for p in &parts[..parts.len() - 1] {
        at.push('/');
        at.push_str(p);
        let dir = root.join(&at).expect("join");
        if !dir.exists().expect("exists") {
            dir.create_dir().expect("create_dir");
        }
    }
    at.push('/');
    at.push_str(parts[parts.len() - 1]);
    let f = root.join(&at).expect("join");
    f.create_file().expect("create_file").write_all(data).expect("write");
}
pub fn preprocess(text: &str) -> Result<Processed, hemtt_preprocessor::Error> {
    preprocess_files(&[("main.hpp", text.to_string())], "main.hpp")
}
pub fn preprocess_files<S: AsRef<str>>(files: &[(S, String)], main: &str) -> Result<Processed, hemtt_preprocessor::Error> {
    let ws = memory(files);
    Processor::run(&ws.join(main).expect("join")).map_err(|e| e.1)
}
/// Codes as text, with their rendered diagnostic (rendering must not fail).
pub fn idents(codes: &[Arc<dyn Code>]) -> Vec<String> {
    let files = WorkspaceFiles::new();
    codes
        .iter()
        .map(|c| {
            if let Some(d) = c.diagnostic() {
                let _ = d.to_string(&files);
            }
            c.ident().to_string()
        })
        .collect()
}
