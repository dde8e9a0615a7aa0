//! Runtime of the generated drivers: calls bindings step by step and reports what came back to the
//! Python side (`pyrt/vrec.py`), which holds the expectations.
use pyo3::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Step = for<'py> fn(Python<'py>) -> PyResult<PyObject>;

/// Evaluate a Python expression in the namespace of the recorder.
pub fn ev(py: Python<'_>, expr: &str) -> PyObject {
    match try_ev(py, expr) {
        Ok(v) => v,
        Err(e) => {
            e.print(py);
            eprintln!("HARNESS: cannot evaluate {expr}");
            std::process::exit(97);
        }
    }
}

fn try_ev(py: Python<'_>, expr: &str) -> PyResult<PyObject> {
    Ok(py.import_bound("vrec")?.call_method1("ev", (expr,))?.unbind())
}

/// Evaluate a Python expression to an object of the given native type.
pub fn evt<'py, T: pyo3::PyTypeCheck>(py: Python<'py>, expr: &str) -> Bound<'py, T> {
    match ev(py, expr).into_bound(py).downcast_into::<T>() {
        Ok(v) => v,
        Err(_) => {
            eprintln!("HARNESS: {expr} is not of the requested type");
            std::process::exit(97);
        }
    }
}

/// Keep an object under a name for later steps (`O['name']`) and pass it on.
pub fn keep<'py, T>(py: Python<'py>, name: &str, obj: &Bound<'py, T>) {
    py.import_bound("vrec").unwrap().call_method1("keep", (name, obj.as_any())).unwrap();
}

pub fn main(steps: &[(&str, Step)]) {
    std::panic::set_hook(Box::new(|_| {}));
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        let run = || -> PyResult<()> {
            let sys = py.import_bound("sys")?;
            sys.setattr("dont_write_bytecode", true)?;
            let path = sys.getattr("path")?;
            for p in std::env::var("VRT_PATH").unwrap_or_default().split(':').rev() {
                path.call_method1("insert", (0, p))?;
            }
            let vrec = py.import_bound("vrec")?;
            vrec.call_method1("load", (std::env::var("VRT_PLAN").unwrap_or_default(),))?;
            for &(id, f) in steps {
                vrec.call_method1("before", (id,))?;
                match catch_unwind(AssertUnwindSafe(|| f(py))) {
                    Ok(Ok(obj)) => vrec.call_method1("ok", (id, obj))?,
                    Ok(Err(e)) => {
                        let exc = e.into_value(py);
                        vrec.call_method1("err", (id, exc))?
                    }
                    Err(p) => {
                        let msg = p
                            .downcast_ref::<&str>()
                            .map(|s| (*s).to_owned())
                            .or_else(|| p.downcast_ref::<String>().cloned())
                            .unwrap_or_default();
                        vrec.call_method1("panic", (id, msg))?
                    }
                };
            }
            vrec.call_method1("finish", (std::env::var("VRT_RESULT").unwrap_or_default(),))?;
            Ok(())
        };
        if let Err(e) = run() {
            e.print(py);
            eprintln!("HARNESS: driver failed");
            std::process::exit(98);
        }
    });
}
