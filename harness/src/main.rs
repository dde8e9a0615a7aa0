//! `vgen`: a fork-per-request server around the public API of pyo3_bindgen.
//!
//! Reads one JSON request per line on stdin and answers with one JSON line on stdout. Every request
//! runs in a forked child, i.e. in a fresh copy of one warmed-up interpreter, so requests cannot
//! influence each other and a crash of the code under test is observed instead of suffered.
use pyo3::prelude::*;
use pyo3_bindgen::{Codegen, Config};
use serde_json::{json, Map, Value};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

static PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

fn config(v: &Value) -> Config {
    let b = |k: &str, d: bool| v.get(k).and_then(Value::as_bool).unwrap_or(d);
    let mut cfg = Config::default();
    cfg.traverse_submodules = b("traverse_submodules", true);
    cfg.generate_preludes = b("generate_preludes", true);
    cfg.generate_imports = b("generate_imports", true);
    cfg.generate_classes = b("generate_classes", true);
    cfg.generate_type_vars = b("generate_type_vars", true);
    cfg.generate_functions = b("generate_functions", true);
    cfg.generate_properties = b("generate_properties", true);
    cfg.generate_docs = b("generate_docs", true);
    cfg.include_private = b("include_private", false);
    cfg.generate_dependencies = b("generate_dependencies", false);
    cfg.suppress_python_stdout = b("suppress_python_stdout", true);
    cfg.suppress_python_stderr = b("suppress_python_stderr", true);
    if let Some(list) = v.get("blocklist_names").and_then(Value::as_array) {
        cfg.blocklist_names = list.iter().map(|s| s.as_str().unwrap_or_default().to_owned()).collect();
    }
    cfg
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap_or_default().to_owned()).collect())
        .unwrap_or_default()
}

enum GenErr {
    Engine(pyo3_bindgen::PyBindgenError),
    Import(String),
    Harness(String),
}
impl From<pyo3_bindgen::PyBindgenError> for GenErr {
    fn from(e: pyo3_bindgen::PyBindgenError) -> Self {
        Self::Engine(e)
    }
}

fn codegen(op: &Value) -> Result<Codegen, GenErr> {
    let cfg = match op.get("cfg") {
        Some(c) if !c.is_null() => Some(config(c)),
        _ => None,
    };
    let mut cg = cfg.map_or_else(Codegen::default, Codegen::new);
    for step in op["steps"].as_array().cloned().unwrap_or_default() {
        let kind = step["t"].as_str().unwrap_or_default().to_owned();
        cg = match kind.as_str() {
            "name" => cg.module_name(step["v"].as_str().unwrap_or_default())?,
            "names" => {
                let names = strs(&step["v"]);
                let names: Vec<&str> = names.iter().map(String::as_str).collect();
                cg.module_names(names)?
            }
            "module" | "modules" => {
                let names = if kind == "module" { vec![step["v"].as_str().unwrap_or_default().to_owned()] } else { strs(&step["v"]) };
                Python::with_gil(|py| -> Result<Codegen, GenErr> {
                    let mut mods = Vec::new();
                    for n in &names {
                        mods.push(py.import_bound(n.as_str()).map_err(|e| GenErr::Import(format!("import {n}: {e}")))?);
                    }
                    Ok(if kind == "module" { cg.module(&mods[0])? } else { cg.modules(&mods)? })
                })?
            }
            "str" => cg.module_from_str(step["code"].as_str().unwrap_or_default(), step["v"].as_str().unwrap_or_default())?,
            other => return Err(GenErr::Harness(format!("unknown step {other}"))),
        };
    }
    Ok(cg)
}

fn err_value(e: GenErr) -> Value {
    match e {
        GenErr::Engine(e) => {
            let kind = match &e {
                pyo3_bindgen::PyBindgenError::IoError(_) => "IoError",
                pyo3_bindgen::PyBindgenError::PyError(_) => "PyError",
                pyo3_bindgen::PyBindgenError::SynError(_) => "SynError",
                pyo3_bindgen::PyBindgenError::ParseError(_) => "ParseError",
                pyo3_bindgen::PyBindgenError::CodegenError(_) => "CodegenError",
                _ => "Other",
            };
            let py_type = if let pyo3_bindgen::PyBindgenError::PyError(p) = &e {
                Python::with_gil(|py| p.get_type_bound(py).name().map(|n| n.to_string()).unwrap_or_default())
            } else {
                String::new()
            };
            json!({"err": e.to_string(), "kind": kind, "py": py_type})
        }
        GenErr::Import(s) => json!({"err": s, "kind": "Import", "py": ""}),
        GenErr::Harness(s) => json!({"harness": s}),
    }
}

fn gen_op(op: &Value) -> Value {
    *PANIC.lock().unwrap() = None;
    let out = op["out"].as_str().unwrap_or("tree").to_owned();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let cg = codegen(op)?;
        if let Some(path) = op.get("build").and_then(Value::as_str) {
            cg.build(path)?;
            Ok(None)
        } else {
            Ok(Some(cg.generate()?.to_string()))
        }
    }));
    match res {
        Err(_) => json!({"panic": PANIC.lock().unwrap().clone().unwrap_or_else(|| "panic".into())}),
        Ok(Err(e)) => err_value(e),
        Ok(Ok(None)) => json!({"ok": null}),
        Ok(Ok(Some(text))) => {
            let mut m = Map::new();
            match syn::parse_file(&text) {
                Err(e) => {
                    m.insert("invalid".into(), json!(e.to_string()));
                    m.insert("text".into(), json!(text));
                }
                Ok(file) => {
                    m.insert("ok".into(), json!(true));
                    if out.contains("pretty") {
                        m.insert("pretty".into(), json!(prettyplease::unparse(&file)));
                    }
                    if out.contains("tree") {
                        m.insert("tree".into(), json!(tree::items(&file.items)));
                    }
                    if out.contains("text") {
                        m.insert("text".into(), json!(text));
                    }
                }
            }
            Value::Object(m)
        }
    }
}

fn py_op(py: Python, ns: &Bound<pyo3::types::PyDict>, op: &Value) -> Value {
    if let Some(code) = op.get("code").and_then(Value::as_str) {
        if let Err(e) = py.run_bound(code, Some(ns), None) {
            return json!({"pyerr": e.to_string()});
        }
    }
    if let Some(expr) = op.get("eval").and_then(Value::as_str) {
        let r = py.eval_bound(&format!("__import__('json').dumps({expr})"), Some(ns), None);
        return match r {
            Ok(v) => json!({"val": serde_json::from_str::<Value>(&v.to_string()).unwrap_or(Value::Null)}),
            Err(e) => json!({"pyerr": e.to_string()}),
        };
    }
    json!({"val": null})
}

fn run_request(py: Python, req: &Value) -> Value {
    let ns = pyo3::types::PyDict::new_bound(py);
    let _ = ns.set_item("__builtins__", py.import_bound("builtins").unwrap());
    if let Ok(sys) = py.import_bound("sys") {
        if let Ok(path) = sys.getattr("path") {
            for p in strs(&req["path"]).iter().rev() {
                let _ = path.call_method1("insert", (0, p));
            }
        }
        let _ = sys.setattr("dont_write_bytecode", true);
    }
    let mut results = Vec::new();
    for op in req["ops"].as_array().cloned().unwrap_or_default() {
        results.push(match op["op"].as_str().unwrap_or_default() {
            "gen" => gen_op(&op),
            "py" => py_op(py, &ns, &op),
            "parse" => {
                let text = op["text"].as_str().unwrap_or_default();
                match syn::parse_file(text) {
                    Ok(f) => json!({"ok": true, "tree": tree::items(&f.items)}),
                    Err(e) => json!({"invalid": e.to_string()}),
                }
            }
            "read" => match std::fs::read_to_string(op["file"].as_str().unwrap_or_default()) {
                Ok(s) => json!({"val": s}),
                Err(e) => json!({"ioerr": e.to_string()}),
            },
            other => json!({"harness": format!("unknown op {other}")}),
        });
    }
    Value::Array(results)
}

fn main() {
    // The JSON protocol keeps a private copy of stdout; whatever the code under test prints to fd 1/2
    // goes to /dev/null (or to the file named by VGEN_LOG).
    let out_fd = unsafe { libc::dup(1) };
    let sink = std::env::var("VGEN_LOG").unwrap_or_else(|_| "/dev/null".into());
    unsafe {
        let path = std::ffi::CString::new(sink).unwrap();
        let fd = libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND, 0o644);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
    }
    let mut out = unsafe { std::fs::File::from_raw_fd(out_fd) };
    std::panic::set_hook(Box::new(|info| {
        let mut slot = PANIC.lock().unwrap();
        if slot.is_none() {
            let bt = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_owned())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            *slot = Some(format!("{msg} @ {bt}"));
        }
    }));
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        for m in ["inspect", "pkgutil", "typing", "enum", "functools", "dataclasses", "datetime", "pathlib", "json", "abc"] {
            py.import_bound(m).unwrap();
        }
    });
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let req: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                writeln!(out, "{}", json!({"harness": format!("bad request: {e}")})).unwrap();
                continue;
            }
        };
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        let pid: i32 = Python::with_gil(|py| {
            let pid: i32 = py.import_bound("os").unwrap().call_method0("fork").unwrap().extract().unwrap();
            if pid == 0 {
                unsafe {
                    libc::close(fds[0]);
                    libc::close(0);
                }
                let res = catch_unwind(AssertUnwindSafe(|| run_request(py, &req)));
                let v = res.unwrap_or_else(|_| json!({"harness": format!("child: {:?}", PANIC.lock().unwrap())}));
                let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = w.write_all(v.to_string().as_bytes());
                let _ = w.flush();
                drop(w);
                unsafe { libc::_exit(0) };
            }
            pid
        });
        unsafe { libc::close(fds[1]) };
        let mut buf = String::new();
        let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
        let _ = r.read_to_string(&mut buf);
        let mut status = 0i32;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let answer = if libc::WIFSIGNALED(status) {
            json!({"crash": libc::WTERMSIG(status)})
        } else if libc::WEXITSTATUS(status) != 0 || buf.is_empty() {
            json!({"exit": libc::WEXITSTATUS(status)})
        } else {
            serde_json::from_str(&buf).unwrap_or_else(|e| json!({"harness": format!("bad answer: {e}")}))
        };
        writeln!(out, "{answer}").unwrap();
        out.flush().unwrap();
    }
}

mod tree {
    use super::*;
    use quote::ToTokens;

    fn norm(t: impl ToTokens) -> String {
        // Token text without insignificant blanks: keep a blank only between two word characters
        let s = t.to_token_stream().to_string();
        let mut out = String::with_capacity(s.len());
        let chars: Vec<char> = s.chars().collect();
        let word = |c: char| c.is_alphanumeric() || c == '_';
        for (i, &c) in chars.iter().enumerate() {
            if c == ' ' {
                let prev = out.chars().last();
                let next = chars.get(i + 1).copied();
                if prev.is_some_and(|p| word(p) || p == '\'') && next.is_some_and(|n| word(n)) {
                    out.push(' ');
                }
            } else {
                out.push(c);
            }
        }
        out
    }

    fn docs(attrs: &[syn::Attribute]) -> Value {
        let v: Vec<String> = attrs
            .iter()
            .filter_map(|a| match &a.meta {
                syn::Meta::NameValue(nv) if nv.path.is_ident("doc") => match &nv.value {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                    other => Some(norm(other)),
                },
                _ => None,
            })
            .collect();
        json!(v)
    }

    fn strip_docs(attrs: &[syn::Attribute]) -> Vec<syn::Attribute> {
        attrs.iter().filter(|a| !a.path().is_ident("doc")).cloned().collect()
    }

    fn sig(s: &syn::Signature, vis: &str) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("k".into(), json!("fn"));
        m.insert("name".into(), json!(s.ident.to_string()));
        m.insert("vis".into(), json!(vis));
        m.insert("sig".into(), json!(norm(s)));
        let mut recv = Value::Null;
        let mut params = Vec::new();
        for a in &s.inputs {
            match a {
                syn::FnArg::Receiver(r) => recv = json!(norm(r)),
                syn::FnArg::Typed(t) => params.push(json!([norm(&t.pat), norm(&t.ty)])),
            }
        }
        m.insert("recv".into(), recv);
        m.insert("params".into(), json!(params));
        m.insert(
            "ret".into(),
            match &s.output {
                syn::ReturnType::Default => json!("()"),
                syn::ReturnType::Type(_, t) => json!(norm(t)),
            },
        );
        m
    }

    fn use_leaves(t: &syn::UseTree, prefix: String, out: &mut Vec<Value>) {
        match t {
            syn::UseTree::Path(p) => use_leaves(&p.tree, format!("{prefix}{}::", p.ident), out),
            syn::UseTree::Name(n) => out.push(json!([format!("{prefix}{}", n.ident), n.ident.to_string()])),
            syn::UseTree::Rename(r) => out.push(json!([format!("{prefix}{}", r.ident), r.rename.to_string()])),
            syn::UseTree::Glob(_) => out.push(json!([format!("{prefix}*"), "*"])),
            syn::UseTree::Group(g) => g.items.iter().for_each(|i| use_leaves(i, prefix.clone(), out)),
        }
    }

    pub fn items(items: &[syn::Item]) -> Vec<Value> {
        items.iter().map(item).collect()
    }

    fn item(i: &syn::Item) -> Value {
        match i {
            syn::Item::Mod(m) => json!({
                "k": "mod", "name": m.ident.to_string(), "vis": norm(&m.vis), "docs": docs(&m.attrs),
                "attrs": strip_docs(&m.attrs).iter().map(norm).collect::<Vec<_>>(),
                "items": m.content.as_ref().map(|c| items(&c.1)).unwrap_or_default(),
            }),
            syn::Item::Fn(f) => {
                let mut m = sig(&f.sig, &norm(&f.vis));
                m.insert("docs".into(), docs(&f.attrs));
                let mut g = f.clone();
                g.attrs = strip_docs(&f.attrs);
                m.insert("code".into(), json!(norm(&g)));
                Value::Object(m)
            }
            syn::Item::Struct(s) => {
                let mut g = s.clone();
                g.attrs = strip_docs(&s.attrs);
                json!({"k": "struct", "name": s.ident.to_string(), "vis": norm(&s.vis), "docs": docs(&s.attrs), "code": norm(&g)})
            }
            syn::Item::Trait(t) => json!({
                "k": "trait", "name": t.ident.to_string(), "vis": norm(&t.vis), "docs": docs(&t.attrs),
                "items": t.items.iter().map(|x| match x {
                    syn::TraitItem::Fn(f) => {
                        let mut m = sig(&f.sig, "");
                        m.insert("docs".into(), docs(&f.attrs));
                        Value::Object(m)
                    }
                    o => json!({"k": "other", "code": norm(o)}),
                }).collect::<Vec<_>>(),
            }),
            syn::Item::Impl(im) => json!({
                "k": "impl", "self": norm(&im.self_ty),
                "trait": im.trait_.as_ref().map(|t| norm(&t.1)),
                "docs": docs(&im.attrs),
                "items": im.items.iter().map(|x| match x {
                    syn::ImplItem::Fn(f) => {
                        let mut m = sig(&f.sig, &norm(&f.vis));
                        m.insert("docs".into(), docs(&f.attrs));
                        let mut g = f.clone();
                        g.attrs = strip_docs(&f.attrs);
                        m.insert("code".into(), json!(norm(&g)));
                        Value::Object(m)
                    }
                    o => json!({"k": "other", "code": norm(o)}),
                }).collect::<Vec<_>>(),
            }),
            syn::Item::Type(t) => json!({"k": "type", "name": t.ident.to_string(), "vis": norm(&t.vis), "docs": docs(&t.attrs), "code": norm(t)}),
            syn::Item::Use(u) => {
                let mut leaves = Vec::new();
                use_leaves(&u.tree, String::new(), &mut leaves);
                json!({"k": "use", "vis": norm(&u.vis), "leaves": leaves, "colon": u.leading_colon.is_some()})
            }
            syn::Item::Macro(m) => json!({"k": "macro", "path": norm(&m.mac.path), "code": norm(m)}),
            o => json!({"k": "other", "code": norm(o)}),
        }
    }
}
