//! The embedded Python interpreter, with the extension module under test built in.
use pyo3::ffi;
use pyo3::prelude::*;
extern "C" {
    fn PyInit_komunikilo() -> *mut ffi::PyObject;
}
unsafe extern "C" fn init_mod() -> *mut ffi::PyObject {
    PyInit_komunikilo()
}
pub fn init() {
    std::env::set_var("PYTHONHASHSEED", "0");
    std::env::set_var("PYTHONDONTWRITEBYTECODE", "1");
    std::env::set_var("PYTHONPATH", "/opt/kom-venv/lib/python3.12/site-packages:/repo/kom_py");
    std::env::set_var("OPENBLAS_NUM_THREADS", "1");
    std::env::set_var("OMP_NUM_THREADS", "1");
    unsafe {
        ffi::PyImport_AppendInittab(c"komunikilo".as_ptr(), Some(init_mod));
    }
    pyo3::prepare_freethreaded_python();
    pyo3::Python::with_gil(|py| {
        py.import_bound("komunikilo").expect("import komunikilo");
        py.import_bound("numpy").expect("import numpy");
    });
}
/// Calls a function of the module that returns floats; panics with the exception's text if it fails.
pub fn call_floats(name: &str, args: impl IntoPy<Py<pyo3::types::PyTuple>>) -> Vec<f64> {
    Python::with_gil(|py| {
        let f = py.import_bound("komunikilo").and_then(|m| m.getattr(name)).unwrap_or_else(|e| panic!("{name}: {e}"));
        let r = f.call1(args).unwrap_or_else(|e| panic!("{name} raised {e}"));
        r.extract().unwrap_or_else(|e| panic!("{name} returned the wrong type: {e}"))
    })
}

pub fn call_bits(name: &str, args: impl IntoPy<Py<pyo3::types::PyTuple>>) -> Vec<bool> {
    Python::with_gil(|py| {
        let f = py.import_bound("komunikilo").and_then(|m| m.getattr(name)).unwrap_or_else(|e| panic!("{name}: {e}"));
        let r = f.call1(args).unwrap_or_else(|e| panic!("{name} raised {e}"));
        // numpy arrays and lists alike
        let r = if r.hasattr("tolist").unwrap_or(false) { r.call_method0("tolist").unwrap() } else { r };
        r.extract().unwrap_or_else(|e| panic!("{name} returned the wrong type: {e}"))
    })
}
