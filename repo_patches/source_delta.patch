From ec62b3f0c4fbc55e27ab3ac75e9b15c5bce354e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 01/56] fix: swallow suppressed Python output and always
 restore the streams

---
 pyo3_bindgen_engine/src/utils/io.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..c908862 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -21,7 +21,11 @@ pub fn with_suppressed_python_output<T>(
     let original_stderr = sys.getattr(stderr_ident)?;
 
     // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
+    let supressed_output = py.eval_bound(
+        r"open(__import__('os').devnull, 'w', encoding='utf-8', errors='ignore')",
+        None,
+        None,
+    )?;
     if suppress_stdout {
         sys.setattr(stdout_ident, &supressed_output)?;
     }
@@ -30,9 +34,9 @@ pub fn with_suppressed_python_output<T>(
     }
 
     // Run the function
-    let ret = f()?;
+    let ret = f();
 
-    // Restore the original stdout and stderr
+    // Restore the original stdout and stderr (regardless of whether the function succeeded)
     if suppress_stdout {
         sys.setattr(stdout_ident, original_stdout)?;
     }
@@ -40,5 +44,5 @@ pub fn with_suppressed_python_output<T>(
         sys.setattr(stderr_ident, original_stderr)?;
     }
 
-    Ok(ret)
+    ret
 }
-- 
2.43.0


From b4e05145c73a14c369552702e83a38c3e6e6cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 02/56] fix: suppress the output of Python modules while they
 are being imported

---
 pyo3_bindgen_engine/src/codegen.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..712e9b9 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -78,7 +78,12 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
+            let module = crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || Ok(py.import_bound(module_name)?),
+            )?;
             self.module(&module)
         })
     }
@@ -99,11 +104,18 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
+            let module = crate::io_utils::with_suppressed_python_output(
                 py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    Ok(pyo3::types::PyModule::from_code_bound(
+                        py,
+                        source_code,
+                        &format!("{module_name}/__init__.py"),
+                        module_name,
+                    )?)
+                },
             )?;
             self.module(&module)
         })
-- 
2.43.0


From 97b8abbfc8210398ae90f308960546cf75806784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 03/56] fix: import submodules before accessing their functions
 and properties

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 16 +++++++++++++++-
 pyo3_bindgen_engine/src/syntax/function.rs    |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs    |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..1619359 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -194,10 +194,24 @@ impl Path {
         }
     }
 
+    /// Generate the code that imports the Python module at this path.
+    pub fn import_quote_module(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        self.import_quote_up_to(py, self.len())
+    }
+
+    /// Generate the code that accesses the attribute (e.g. class) at this path from its parent module.
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        self.import_quote_up_to(py, self.len().saturating_sub(1))
+    }
+
+    fn import_quote_up_to(
+        &self,
+        py: pyo3::Python,
+        max_package_len: usize,
+    ) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
-        for i in (1..self.len()).rev() {
+        for i in (1..=max_package_len).rev() {
             let module_name = Self::from(&self[..i]);
             if py.import_bound(module_name.to_py().as_str()).is_ok() {
                 package_path = module_name;
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..01245d1 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -477,7 +477,7 @@ impl Function {
                 self.name
                     .parent()
                     .unwrap_or_else(|| unreachable!())
-                    .import_quote(py)
+                    .import_quote_module(py)
             }),
             FunctionType::Method {
                 class_path,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..8278212 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -249,7 +249,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_quote_module(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
@@ -326,7 +326,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_quote_module(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
-- 
2.43.0


From ad73afb66a58fd0bb561c941258c44ff0a2bebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 04/56] fix: pass bytes, bytearray, frozenset and variadic
 tuple arguments as values of their type

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 48 +++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..9df23f3 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -70,7 +70,47 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
+            Self::PyBytes => {
+                quote! {
+                    let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
+                }
+            }
+            Self::PyByteArray => {
+                quote! {
+                    let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
+                }
+            }
+            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
+                quote! {
+                    let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
+                }
+            }
+            Self::PyTuple(inner_types) if Self::is_variadic_tuple(inner_types) => {
+                quote! {
+                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
+                }
+            }
             Self::Optional(inner_type) => match inner_type.as_ref() {
+                Self::PyBytes => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyBytes::new_bound(py, &#ident));
+                    }
+                }
+                Self::PyByteArray => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyByteArray::new_bound(py, &#ident));
+                    }
+                }
+                Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyFrozenSet::new_bound(py, &#ident)).transpose()?;
+                    }
+                }
+                Self::PyTuple(inner_types) if Self::is_variadic_tuple(inner_types) => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyTuple::new_bound(py, #ident));
+                    }
+                }
                 Self::PyDict {
                     key_type,
                     value_type,
@@ -96,6 +136,10 @@ impl Type {
         }
     }
 
+    fn is_variadic_tuple(inner_types: &[Self]) -> bool {
+        matches!(inner_types, [_, Self::PyEllipsis])
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
@@ -188,9 +232,7 @@ impl Type {
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
                     )
-                } else if inner_types.len() == 2
-                    && *inner_types.last().unwrap_or_else(|| unreachable!()) == Self::PyEllipsis
-                {
+                } else if Self::is_variadic_tuple(&inner_types) {
                     Self::PyList(Box::new(inner_types[0].clone())).into_rs(local_types)
                 } else {
                     let inner_types = inner_types
-- 
2.43.0


From 74617993d2b1827576393b77583df8a0aa7be42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 05/56] fix: pass None (not an empty dict) for optional dict
 arguments

---
 pyo3_bindgen_engine/src/syntax/function.rs | 10 +++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 30 ++++++++--------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 01245d1..6f23ff5 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -376,9 +376,13 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    Type::preprocess_var_keyword(param_ident)
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 9df23f3..a81179b 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -111,31 +111,23 @@ impl Type {
                         let #ident = #ident.map(|#ident| ::pyo3::types::PyTuple::new_bound(py, #ident));
                     }
                 }
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
-                    quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
-                    }
-                }
                 _ => proc_macro2::TokenStream::new(),
             },
             _ => proc_macro2::TokenStream::new(),
         }
     }
 
+    /// Pre-process the parameter that collects variable keyword arguments (`**kwargs`).
+    pub fn preprocess_var_keyword(ident: &syn::Ident) -> proc_macro2::TokenStream {
+        quote! {
+            let #ident = if let Some(#ident) = #ident {
+                ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
+            } else {
+                ::pyo3::types::PyDict::new_bound(py)
+            };
+        }
+    }
+
     fn is_variadic_tuple(inner_types: &[Self]) -> bool {
         matches!(inner_types, [_, Self::PyEllipsis])
     }
-- 
2.43.0


From 912cefef5987d43ab9d3fc3b22b54d7339ce8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 06/56] fix: do not modify the caller's dict of variable
 keyword arguments

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 6f23ff5..ac9f31f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -586,7 +586,7 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = #var_keyword_args_ident;
+                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
                         #(
                             ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
                         )*
-- 
2.43.0


From 69ce59012b3e3d92c06ec1e8051eb9ea1b061120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 07/56] fix: keep parameters named `_`

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index ac9f31f..d0c042e 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
-- 
2.43.0


From 7642ddfa6761dbd6d282daa1d8ebcd633b5c9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 08/56] fix: only strip a positional `self` from the parameters
 of methods

---
 pyo3_bindgen_engine/src/syntax/function.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index d0c042e..3060322 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -228,8 +228,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -237,19 +237,29 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
             };
 
             // Skip the first parameter if it's an instance method (or `__init__`/`__call__`)
+            // Note: The instance might also be received through `*args`, which must be preserved
+            let has_positional_self = parameters.first().is_some_and(|param| {
+                [
+                    ParameterKind::PositionalOnly,
+                    ParameterKind::PositionalOrKeyword,
+                ]
+                .contains(&param.kind)
+            });
             if let FunctionType::Method {
                 typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
                 ..
             } = typ
             {
-                parameters.remove(0);
+                if has_positional_self {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From 16af847ff1997748bda79f875c3a6a7b89f0ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 09/56] fix: determine the kind of inherited and non-`self`
 methods from the class

---
 pyo3_bindgen_engine/src/syntax/class.rs    |   3 +-
 pyo3_bindgen_engine/src/syntax/function.rs | 117 +++++++++------------
 2 files changed, 51 insertions(+), 69 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..383f3ba 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -96,7 +96,8 @@ impl Class {
                                 typ: match attr_name.as_py() {
                                     "__init__" => MethodType::Constructor,
                                     "__call__" => MethodType::Callable,
-                                    _ => MethodType::Unknown,
+                                    _ => MethodType::determine(class, &attr_name, &attr)
+                                        .unwrap_or(MethodType::Unknown),
                                 },
                             },
                         )
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 3060322..b9943c8 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -31,6 +31,42 @@ pub enum MethodType {
     Unknown,
 }
 
+impl MethodType {
+    /// Determine the type of a method from the (static) object that is stored in the class or any of its bases.
+    pub fn determine(
+        class: &pyo3::Bound<pyo3::types::PyType>,
+        name: &Ident,
+        method: &pyo3::Bound<pyo3::types::PyAny>,
+    ) -> Result<Self> {
+        let py = class.py();
+        let inspect = py.import_bound(pyo3::intern!(py, "inspect"))?;
+
+        // Use the static object of the method, which still contains information about what kind of method it is
+        let static_fn_obj =
+            inspect.call_method1(pyo3::intern!(py, "getattr_static"), (class, name.as_py()))?;
+        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
+        Ok(
+            if py
+                .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                .is_truthy()?
+            {
+                Self::ClassMethod
+            } else if py
+                .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
+                .is_truthy()?
+                || !inspect
+                    .call_method1(pyo3::intern!(py, "isfunction"), (method,))?
+                    .is_truthy()?
+            {
+                // Bound methods and builtin functions do not receive the instance either
+                Self::StaticMethod
+            } else {
+                Self::InstanceMethod
+            },
+        )
+    }
+}
+
 impl Function {
     pub fn parse(
         _cfg: &Config,
@@ -113,79 +149,24 @@ impl Function {
                 }
             };
 
-            // If marked as an unknown method, try to infer the method type
-            match &typ {
-                FunctionType::Method {
-                    class_path,
-                    typ: method_typ,
-                } if *method_typ == MethodType::Unknown => {
-                    // Get the class object from its class path
-                    let class = py
-                        .import_bound(
-                            class_path
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
-                        });
-
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
-                    if let Ok(static_fn_obj) = class.and_then(|class| {
-                        class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
-                    }) {
-                        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
-                        let method_type = if py
-                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
-                            .is_truthy()?
-                        {
-                            MethodType::ClassMethod
-                        } else if py
-                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
-                            .is_truthy()?
-                        {
-                            MethodType::StaticMethod
-                        } else {
-                            MethodType::InstanceMethod
-                        };
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: method_type,
-                        };
-                    } else {
-                        // Cannot determine the method type, default to static method (will be changed to instance method if the first parameter is named 'self')
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: MethodType::StaticMethod,
-                        };
-                    }
-                }
-                _ => {}
-            };
-
-            // As a final step in determining the method type, check parameters for all non-instance/callable methods
+            // If the method type is still unknown, try to infer it from the parameters
             // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
             // TODO: See if there is a better way to infer the method type from parameters alone
             match &typ {
                 FunctionType::Method {
-                    typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
-                    ..
-                } => {}
-                FunctionType::Method { class_path, typ: _ } => {
-                    if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: MethodType::InstanceMethod,
-                        };
-                    }
+                    class_path,
+                    typ: MethodType::Unknown,
+                } => {
+                    typ = FunctionType::Method {
+                        class_path: class_path.clone(),
+                        typ: if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
+                            MethodType::InstanceMethod
+                        } else {
+                            MethodType::StaticMethod
+                        },
+                    };
                 }
+                FunctionType::Method { .. } => {}
                 FunctionType::Function | FunctionType::Closure => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         if [
-- 
2.43.0


From 84143399e5054bbc16a0d8b2cfaabffaf394cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 10/56] fix: use the annotation of the property setter and
 accept setters of any arity

---
 pyo3_bindgen_engine/src/syntax/property.rs | 38 ++++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 8278212..8e8082a 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -90,19 +90,26 @@ impl Property {
 
                         // Extract the annotation from the parameter of the function (if available)
                         if let Ok(function_signature) = signature.call1((&setter,)) {
-                            setter_annotation = {
-                                let param = function_signature
-                                    .getattr(pyo3::intern!(py, "parameters"))?
-                                    .call_method0(pyo3::intern!(py, "values"))?
-                                    .iter()?
-                                    .nth(1)
-                                    .unwrap()?;
-                                let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
-                                if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
-                                    Type::Unknown
-                                } else {
-                                    annotation.try_into()?
+                            let param = function_signature
+                                .getattr(pyo3::intern!(py, "parameters"))?
+                                .call_method0(pyo3::intern!(py, "values"))?
+                                .iter()?
+                                .nth(1)
+                                .transpose()?;
+                            setter_annotation = match param {
+                                Some(param) => {
+                                    let param_annotation =
+                                        param.getattr(pyo3::intern!(py, "annotation"))?;
+                                    if param_annotation
+                                        .is(&param.getattr(pyo3::intern!(py, "empty"))?)
+                                    {
+                                        // Assume that the setter accepts the type returned by the getter
+                                        annotation.clone()
+                                    } else {
+                                        param_annotation.try_into()?
+                                    }
                                 }
+                                None => Type::Unknown,
                             };
                         } else {
                             setter_annotation = Type::Unknown;
@@ -315,11 +322,14 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self
+            .setter_annotation
+            .clone()
+            .into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From ce0262824b4120303879dc4ce9e51307b3571c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 11/56] fix: split nested type annotations by scope and
 tolerate unusual arity

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 188 +++++++++-------------
 1 file changed, 80 insertions(+), 108 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..f22ebe6 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -149,32 +149,24 @@ impl Type {
                                 Self::Union(inner_types)
                             }
                         }
-                        Self::Optional(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
+                        Self::Optional(..) if inner_types.len() == 1 => {
                             Self::Optional(Box::new(inner_types[0].clone()))
                         }
-                        Self::PyDict { .. } => {
-                            // debug_assert_eq!(inner_types.len(), 2);
-                            Self::PyDict {
-                                key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
-                            }
-                        }
-                        Self::PyFrozenSet(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PyDict { .. } if inner_types.len() == 2 => Self::PyDict {
+                            key_type: Box::new(inner_types[0].clone()),
+                            value_type: Box::new(inner_types[1].clone()),
+                        },
+                        Self::PyFrozenSet(..) if inner_types.len() == 1 => {
                             Self::PyFrozenSet(Box::new(inner_types[0].clone()))
                         }
-                        Self::PyList(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PyList(..) if inner_types.len() == 1 => {
                             Self::PyList(Box::new(inner_types[0].clone()))
                         }
-                        Self::PySet(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PySet(..) if inner_types.len() == 1 => {
                             Self::PySet(Box::new(inner_types[0].clone()))
                         }
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
-                        Self::PyFunction { .. } => {
-                            // debug_assert!(!inner_types.is_empty());
+                        Self::PyFunction { .. } if !inner_types.is_empty() => {
                             Self::PyFunction {
                                 param_types: match inner_types.len() {
                                     1 => Vec::default(),
@@ -224,52 +216,44 @@ impl std::str::FromStr for Type {
             "str" => Self::PyString,
 
             // Enums
-            optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
-            {
-                let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
-                        .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::Optional(Box::new(inner_type))
-            }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
-                    .collect::<Result<_>>()?;
-                Self::Union(inner_types)
+            r#union if split_sequence(r#union, '|').len() > 1 => {
+                let inner_types = split_sequence(r#union, '|');
+                match inner_types.as_slice() {
+                    [none, inner_type] | [inner_type, none]
+                        if none == "None" && inner_type != "None" =>
+                    {
+                        Self::Optional(Box::new(Self::from_str(inner_type)?))
+                    }
+                    _ => Self::Union(
+                        inner_types
+                            .iter()
+                            .map(|x| Self::from_str(x))
+                            .collect::<Result<_>>()?,
+                    ),
+                }
             }
             "Union" => Self::Union(vec![Self::Unknown]),
             "" | "None" | "NoneType" => Self::PyNone,
 
             // Collections
             dict if dict.starts_with("dict[") && dict.ends_with(']') => {
-                let mut inner_types = dict
-                    .strip_prefix("dict[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                // debug_assert_eq!(inner_types.len(), 2);
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
-                    .collect::<Result<Vec<_>>>()?;
-                Self::PyDict {
-                    key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                let inner_types = split_sequence(
+                    dict
+                        .strip_prefix("dict[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
+                match inner_types.as_slice() {
+                    [key_type, value_type] => Self::PyDict {
+                        key_type: Box::new(Self::from_str(key_type)?),
+                        value_type: Box::new(Self::from_str(value_type)?),
+                    },
+                    _ => Self::PyDict {
+                        key_type: Box::new(Self::Unknown),
+                        value_type: Box::new(Self::Unknown),
+                    },
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
@@ -337,15 +321,14 @@ impl std::str::FromStr for Type {
                 Self::PySet(Box::new(inner_type))
             }
             tuple if tuple.starts_with("tuple[") && tuple.ends_with(']') => {
-                let mut inner_types = tuple
-                    .strip_prefix("tuple[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
+                let inner_types = split_sequence(
+                    tuple
+                        .strip_prefix("tuple[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
                 let inner_types = inner_types
                     .iter()
                     .map(|x| Self::from_str(x))
@@ -387,15 +370,14 @@ impl std::str::FromStr for Type {
                 return_annotation: Box::new(Self::Unknown),
             },
             callable if callable.starts_with("Callable[") && callable.ends_with(']') => {
-                let mut inner_types = callable
-                    .strip_prefix("Callable[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
+                let inner_types = split_sequence(
+                    callable
+                        .strip_prefix("Callable[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
                 // debug_assert!(!inner_types.is_empty());
                 let inner_types = inner_types
                     .iter()
@@ -476,45 +458,35 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Splits a sequence of types while respecting the scope of nested types.
+fn split_sequence(value: &str, separator: char) -> Vec<String> {
+    let mut sequence = value.split(separator).map(str::to_owned).collect_vec();
+    repair_complex_sequence(&mut sequence, separator);
+    sequence
+        .into_iter()
+        .map(|x| x.trim().to_owned())
+        .collect_vec()
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-    // debug_assert!(!sequence.is_empty());
-    // debug_assert!({
-    //     let merged_sequence = sequence.iter().join("");
-    //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
-    // });
-
-    let mut traversed_all_elements = false;
-    let mut start_index = 0;
-    'outer: while !traversed_all_elements {
-        traversed_all_elements = true;
-        'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
-            if n_scopes == 0 {
-                continue;
-            }
-            for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
-                if n_scopes == 0 {
-                    let mut new_element = sequence[i].clone();
-                    for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-                        new_element = format!("{new_element}{separator}{relevant_element}");
-                    }
-                    sequence[i] = new_element;
-                    sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
-                        traversed_all_elements = false;
-                        start_index = i;
-                        break 'inner;
-                    } else {
-                        break 'outer;
-                    }
-                }
+    let mut n_scopes = 0;
+    let mut repaired: Vec<String> = Vec::with_capacity(sequence.len());
+    for element in sequence.drain(..) {
+        let n_opened = element.matches('[').count();
+        let n_closed = element.matches(']').count();
+        match repaired.last_mut() {
+            // Append to the last element for as long as it has an open scope
+            Some(last) if n_scopes > 0 => {
+                last.push(separator);
+                last.push_str(&element);
             }
+            _ => repaired.push(element),
         }
+        n_scopes = (n_scopes + n_opened).saturating_sub(n_closed);
     }
+    *sequence = repaired;
 }
 
 #[cfg(test)]
-- 
2.43.0


From b8e5a70c202088c4290376628503fda76db020d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 12/56] fix: map type[X] to a type object and Annotated[X] to X

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index f22ebe6..1ea8655 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -123,6 +123,10 @@ impl Type {
 
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
+            // The origin of `typing.Annotated` is already the full type
+            if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
+                return Ok(wrapping_type);
+            }
             Ok(
                 if let Ok(inner_types) =
                     value
@@ -180,10 +184,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -404,12 +404,9 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ == "type" || (typ.starts_with("type[") && typ.ends_with(']')) => {
+                Self::PyType
+            }
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From 64c62f1e0bf1864780442864009a3e8781d9d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 13/56] fix: map datetime.datetime to PyDateTime instead of
 PyDate

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 1ea8655..cf1689f 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -76,10 +76,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
 
             // Additional types - datetime
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
-            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
-- 
2.43.0


From 3c68952d3719e9995a83263c7c523e389c1f5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 14/56] fix: map IP addresses to a type that exists and can be
 converted

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index a81179b..a1275d5 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -236,8 +236,10 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            // Note: PyO3 supports two-way conversion only for `::std::net::IpAddr`
+            Self::IpV4Addr | Self::IpV6Addr => {
+                OutputType::new_identical(quote!(::std::net::IpAddr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From af955c22238f1e88a291d0f781c0ff90bd23f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 15/56] fix: pass path arguments as pathlib.Path instead of str

---
 pyo3_bindgen_engine/src/syntax/property.rs |  5 +---
 pyo3_bindgen_engine/src/typing/from_py.rs  | 29 ++++++++++------------
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 15 +++++++++++
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 8e8082a..13c7432 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -326,10 +326,7 @@ impl Property {
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self
-            .setter_annotation
-            .clone()
-            .into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index cf1689f..214b11a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -170,20 +170,18 @@ impl Type {
                             Self::PySet(Box::new(inner_types[0].clone()))
                         }
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
-                        Self::PyFunction { .. } if !inner_types.is_empty() => {
-                            Self::PyFunction {
-                                param_types: match inner_types.len() {
-                                    1 => Vec::default(),
-                                    _ => inner_types[..inner_types.len() - 1].to_owned(),
-                                },
-                                return_annotation: Box::new(
-                                    inner_types
-                                        .last()
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ),
-                            }
-                        }
+                        Self::PyFunction { .. } if !inner_types.is_empty() => Self::PyFunction {
+                            param_types: match inner_types.len() {
+                                1 => Vec::default(),
+                                _ => inner_types[..inner_types.len() - 1].to_owned(),
+                            },
+                            return_annotation: Box::new(
+                                inner_types
+                                    .last()
+                                    .unwrap_or_else(|| unreachable!())
+                                    .to_owned(),
+                            ),
+                        },
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -238,8 +236,7 @@ impl std::str::FromStr for Type {
             // Collections
             dict if dict.starts_with("dict[") && dict.ends_with(']') => {
                 let inner_types = split_sequence(
-                    dict
-                        .strip_prefix("dict[")
+                    dict.strip_prefix("dict[")
                         .unwrap_or_else(|| unreachable!())
                         .strip_suffix(']')
                         .unwrap_or_else(|| unreachable!()),
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index a1275d5..4f2fb5d 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -80,6 +80,11 @@ impl Type {
                     let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
                 }
             }
+            Self::Path => {
+                quote! {
+                    let #ident = ::pyo3::types::PyAnyMethods::call_method1(py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(), ::pyo3::intern!(py, "Path"), (#ident,))?;
+                }
+            }
             Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
                 quote! {
                     let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
@@ -101,6 +106,16 @@ impl Type {
                         let #ident = #ident.map(|#ident| ::pyo3::types::PyByteArray::new_bound(py, &#ident));
                     }
                 }
+                Self::Path => {
+                    quote! {
+                        let #ident = match #ident {
+                            ::std::option::Option::Some(#ident) => ::std::option::Option::Some(
+                                ::pyo3::types::PyAnyMethods::call_method1(py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(), ::pyo3::intern!(py, "Path"), (#ident,))?
+                            ),
+                            ::std::option::Option::None => ::std::option::Option::None,
+                        };
+                    }
+                }
                 Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
                     quote! {
                         let #ident = #ident.map(|#ident| ::pyo3::types::PyFrozenSet::new_bound(py, &#ident)).transpose()?;
-- 
2.43.0


From 59543bc973f8487701fd08051917df9d837ec93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 16/56] fix: do not use types that are not hashable in Rust as
 elements of sets and keys of dicts

---
 pyo3_bindgen_engine/src/typing/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..e1dcdae 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -72,6 +72,7 @@ pub enum Type {
 }
 
 impl Type {
+    /// Determine if the Rust type that corresponds to this Python type implements `Eq + Hash`.
     fn is_hashable(&self) -> bool {
         matches!(
             self,
@@ -79,11 +80,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From 317764359f190787916793688b9055e43feeba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 17/56] fix: use PyTuple for tuples with more than 12 elements

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 4f2fb5d..72ba264 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,7 +37,7 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types) if Self::is_opaque_tuple(inner_types) => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -143,6 +143,11 @@ impl Type {
         }
     }
 
+    /// Tuples that do not have a Rust equivalent with conversions provided by PyO3.
+    fn is_opaque_tuple(inner_types: &[Self]) -> bool {
+        !(2..=12).contains(&inner_types.len())
+    }
+
     fn is_variadic_tuple(inner_types: &[Self]) -> bool {
         matches!(inner_types, [_, Self::PyEllipsis])
     }
@@ -234,7 +239,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if Self::is_opaque_tuple(&inner_types) {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
-- 
2.43.0


From 928de8b0f3ef1037cc8f4f75335c7a3ada9d6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 18/56] fix: refer to Vec by its full path in the generated
 code

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index b9943c8..83203ee 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -524,7 +524,7 @@ impl Function {
                 let n_args_fixed = positional_args_idents.len();
                 quote::quote! {
                     {
-                        let mut __internal__args = Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
+                        let mut __internal__args = ::std::vec::Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
                         __internal__args.extend([#(::pyo3::ToPyObject::to_object(&#positional_args_idents, py),)*]);
                         __internal__args.extend(::pyo3::types::PyTupleMethods::iter(#var_positional_args_ident).map(|__internal__arg| ::pyo3::ToPyObject::to_object(&__internal__arg, py)));
                         ::pyo3::types::PyTuple::new_bound(
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 72ba264..408b92d 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -162,7 +162,7 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8])),
+            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8])),
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
             Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
@@ -222,7 +222,7 @@ impl Type {
             }
             Self::PyList(inner_type) => {
                 let inner_type = inner_type.into_rs(local_types).owned;
-                OutputType::new(quote!(Vec<#inner_type>), quote!(&[#inner_type]))
+                OutputType::new(quote!(::std::vec::Vec<#inner_type>), quote!(&[#inner_type]))
             }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
-- 
2.43.0


From a58cb6685b85b148ed036bb684cb79ef183a3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 19/56] fix: treat local types with names that are invalid in
 Rust as unhandled types

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 31 +++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 408b92d..4804257 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -63,7 +63,7 @@ impl Type {
             }
             Self::Other(type_name)
                 if Self::try_map_external_type(type_name).is_none()
-                    && !local_types.contains_key(&Path::from_py(type_name)) =>
+                    && Self::try_map_local_type(type_name, local_types).is_none() =>
             {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
@@ -162,7 +162,9 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8])),
+            Self::PyByteArray | Self::PyBytes => {
+                OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8]))
+            }
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
             Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
@@ -372,14 +374,8 @@ impl Type {
         }
 
         // Try to map the local types
-        let type_name_without_delimiters =
-            type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
-            return OutputType::new(
-                quote!(::pyo3::Bound<'py, #relative_path>),
-                quote!(&::pyo3::Bound<'py, #relative_path>),
-            );
+        if let Some(local_type) = Self::try_map_local_type(&type_name, local_types) {
+            return local_type;
         }
 
         // Unhandled types
@@ -389,6 +385,21 @@ impl Type {
         )
     }
 
+    fn try_map_local_type(
+        type_name: &str,
+        local_types: &HashMap<Path, Path>,
+    ) -> Option<OutputType> {
+        let type_name_without_delimiters =
+            type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
+        let relative_path = local_types.get(&Path::from_py(type_name_without_delimiters))?;
+        // Types whose path cannot be expressed in Rust are treated as unhandled
+        let relative_path: syn::Path = relative_path.try_into().ok()?;
+        Some(OutputType::new(
+            quote!(::pyo3::Bound<'py, #relative_path>),
+            quote!(&::pyo3::Bound<'py, #relative_path>),
+        ))
+    }
+
     fn try_map_external_type(type_name: &str) -> Option<OutputType> {
         // TODO: Handle types from other packages with Rust bindings here
         match type_name {
-- 
2.43.0


From ec5dbf08ef2a3dc28180ba6580e6c67220c2e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 20/56] fix: tolerate arbitrary strings as names and types of
 Python attributes

---
 pyo3_bindgen_engine/src/syntax/common/ident.rs | 1 -
 pyo3_bindgen_engine/src/syntax/common/path.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..379f4ff 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -9,7 +9,6 @@ impl Ident {
     }
 
     pub fn from_py(value: &str) -> Self {
-        debug_assert!(!value.is_empty());
         Self(Self::py_to_rs(value))
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 1619359..fa14647 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
-- 
2.43.0


From 0d6359d90268083b8d3d2d37a68bee5246164054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 21/56] fix: generate valid code for module attributes whose
 setter name is already taken

---
 pyo3_bindgen_engine/src/syntax/property.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 13c7432..c1678da 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -167,14 +167,18 @@ impl Property {
                 let impl_fn = self
                     .generate_getter(cfg, scoped_function_idents, local_types)?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
                         .generate_setter(cfg, scoped_function_idents, local_types)?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From 99abc3cdd3adcd3525b433932d28d48d461d88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 22/56] fix: skip attributes and submodules whose names are
 invalid in Rust

---
 pyo3_bindgen_engine/src/syntax/import.rs   |  8 ++++-
 pyo3_bindgen_engine/src/syntax/module.rs   | 20 ++++++++---
 pyo3_bindgen_engine/src/syntax/property.rs | 39 +++++++++++++---------
 pyo3_bindgen_engine/src/syntax/type_var.rs |  8 ++++-
 4 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..4155937 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -53,7 +53,13 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias) = syn::Ident::try_from(self.target.name()) else {
+                    eprintln!(
+                        "WARN: Import '{}' is an invalid Rust ident. Bindings will not be generated.",
+                        self.target
+                    );
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..8b6e210 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -212,6 +212,15 @@ impl Module {
         let submodules = if cfg.traverse_submodules {
             submodules_to_process
                 .into_iter()
+                .filter(|submodule_name| {
+                    let is_valid_ident = syn::Ident::try_from(submodule_name).is_ok();
+                    if !is_valid_ident {
+                        eprintln!(
+                            "WARN: Submodule '{submodule_name}' of '{name}' is an invalid Rust ident. Bindings will not be generated.",
+                        );
+                    }
+                    is_valid_ident
+                })
                 .filter_map(|submodule_name| {
                     let full_submodule_name = name.join(&submodule_name.clone().into());
 
@@ -407,7 +416,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude()?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -635,13 +644,14 @@ impl Module {
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
             .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            // Retain only attributes that can be expressed in Rust
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index c1678da..d1c36f7 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -226,29 +226,29 @@ impl Property {
         // Function
         let function_ident: syn::Ident = {
             let name = self.name.name();
-            if let Ok(ident) = name.try_into() {
-                if scoped_function_idents.contains(&name)
-                    || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&name.as_py())
+            match name.try_into() {
+                Ok(ident)
+                    if !scoped_function_idents.contains(&name)
+                        && !crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&name.as_py()) =>
                 {
+                    ident
+                }
+                _ => {
                     let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                     if scoped_function_idents.contains(&&getter_name)
                         || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                     {
                         return Ok(TraitMethod::empty());
+                    }
+                    if let Ok(ident) = getter_name.try_into() {
+                        ident
                     } else {
-                        getter_name.try_into()?
+                        eprintln!(
+                            "WARN: Property '{}' is an invalid Rust ident. Bindings will not be generated.",
+                            self.name
+                        );
+                        return Ok(TraitMethod::empty());
                     }
-                } else {
-                    ident
-                }
-            } else {
-                let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
-                if scoped_function_idents.contains(&&getter_name)
-                    || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
-                {
-                    return Ok(TraitMethod::empty());
-                } else {
-                    getter_name.try_into()?
                 }
             }
         };
@@ -321,8 +321,15 @@ impl Property {
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
+            }
+            if let Ok(ident) = setter_name.try_into() {
+                ident
             } else {
-                setter_name.try_into()?
+                eprintln!(
+                    "WARN: Property '{}' is an invalid Rust ident. Bindings will not be generated.",
+                    self.name
+                );
+                return Ok(TraitMethod::empty());
             }
         };
         let param_name = self.name.name().as_py();
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..e9a5b27 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,13 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let Ok(typevar_ident) = syn::Ident::try_from(self.name.name()) else {
+            eprintln!(
+                "WARN: Type variable '{}' is an invalid Rust ident. Bindings will not be generated.",
+                self.name
+            );
+            return Ok(proc_macro2::TokenStream::new());
+        };
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From a92c2b604b5cc92451c0527a741720334022a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 23/56] fix: skip attributes and submodules that cannot be
 parsed instead of failing

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  9 +++++++--
 pyo3_bindgen_engine/src/syntax/module.rs | 20 ++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 383f3ba..15fc9a4 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -65,7 +65,7 @@ impl Class {
                     || ["__init__", "__call__"].contains(&attr_name.as_py())
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, false)
                     ?
@@ -122,7 +122,12 @@ impl Class {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Skip attributes that cannot be parsed
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!("WARN: Cannot parse an attribute of '{name}': {err}. Bindings will not be generated.");
+            });
 
         // Extract the docstring of the class
         let docstring = {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 8b6e210..a228fd5 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -118,7 +118,7 @@ impl Module {
                 cfg.is_attr_allowed(attr_name, attr_module, attr_type)
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, true)
                     ?
@@ -206,7 +206,12 @@ impl Module {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Skip attributes that cannot be parsed
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!("WARN: Cannot parse an attribute of '{name}': {err}. Bindings will not be generated.");
+            });
 
         // Process submodules
         let submodules = if cfg.traverse_submodules {
@@ -293,8 +298,15 @@ impl Module {
                         })
                         .ok()
                 })
-                .map(|submodule| Self::parse(cfg, &submodule))
-                .collect::<Result<_>>()?
+                // Skip submodules that cannot be parsed
+                .filter_map(|submodule| {
+                    Self::parse(cfg, &submodule)
+                        .map_err(|err| {
+                            eprintln!("WARN: Cannot parse a submodule of '{name}': {err}. Bindings will not be generated.");
+                        })
+                        .ok()
+                })
+                .collect()
         } else {
             Vec::default()
         };
-- 
2.43.0


From 98e2c3d5868691b42230e45d1d60968aa65c3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 24/56] fix: return an error instead of panicking for modules
 and classes that cannot be inspected

---
 pyo3_bindgen_engine/src/syntax/class.rs       |  5 ++--
 pyo3_bindgen_engine/src/syntax/module.rs      | 25 +++++++++----------
 .../src/utils/introspection.rs                | 13 ++++++++++
 pyo3_bindgen_engine/src/utils/mod.rs          |  1 +
 4 files changed, 28 insertions(+), 16 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/introspection.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 15fc9a4..8775407 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,11 +30,10 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::introspection::dir(class)?
             .iter()
             // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+            .map(|attr_name| Ident::from_py(attr_name))
             .unique()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
             //       - For example, classmethod and staticmethod are converted to method/function
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index a228fd5..adebb14 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -55,7 +55,12 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
+        if name.is_empty() {
+            return Err(crate::PyBindgenError::ParseError(
+                "Module does not have a name".to_string(),
+            ));
+        }
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
@@ -83,11 +88,10 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::introspection::dir(module)?
             .iter()
             // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+            .map(|attr_name| Ident::from_py(attr_name))
             // Remove duplicates
             .unique()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
@@ -237,11 +241,6 @@ impl Module {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
-                                    .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
-                            })
                             .and_then(|module| Self::parse(cfg, &module))
                         {
                             // It could be any attribute, so all of them need to be checked
@@ -557,7 +556,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
@@ -598,10 +597,10 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+            let public_attr_names_set: HashSet<_> = crate::utils::introspection::dir(module)
+                .unwrap_or_default()
                 .iter()
-                .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+                .map(|attr_name| Ident::from_py(attr_name))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
diff --git a/pyo3_bindgen_engine/src/utils/introspection.rs b/pyo3_bindgen_engine/src/utils/introspection.rs
new file mode 100644
index 0000000..6dd61a5
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/introspection.rs
@@ -0,0 +1,13 @@
+use crate::Result;
+use pyo3::prelude::*;
+
+/// List the names of all attributes of the given object.
+/// Unlike [`PyAnyMethods::dir()`], this does not panic if the listing fails.
+pub fn dir(obj: &pyo3::Bound<pyo3::types::PyAny>) -> Result<Vec<String>> {
+    obj.py()
+        .import_bound(pyo3::intern!(obj.py(), "builtins"))?
+        .call_method1(pyo3::intern!(obj.py(), "dir"), (obj,))?
+        .iter()?
+        .map(|attr_name| Ok(attr_name?.to_string()))
+        .collect()
+}
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..425c697 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -1,6 +1,7 @@
 //! Various utilities.
 
 pub mod error;
+pub(crate) mod introspection;
 pub(crate) mod io;
 pub mod result;
 pub(crate) mod text;
-- 
2.43.0


From 21ed8d12d4103555cc4869f6954990860b4e5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 25/56] fix: do not modify the parsed module while reading its
 __all__ and accept any sequence

---
 pyo3_bindgen_engine/src/syntax/module.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index adebb14..8afda0d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -584,15 +584,19 @@ impl Module {
         module_name: &Path,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
-            index
-                .iter()
-                .map(|x| Ident::from_py(&x.to_string()))
-                .unique()
-                .collect()
-        } else {
-            Vec::default()
-        };
+        // Note: `PyModule::index()` is avoided because it creates `__all__` if it does not exist
+        let mut index_attr_names: Vec<_> = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| {
+                index
+                    .iter()?
+                    .map(|x| Ok(Ident::from_py(&x?.to_string())))
+                    .collect::<PyResult<Vec<_>>>()
+            })
+            .unwrap_or_default()
+            .into_iter()
+            .unique()
+            .collect();
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
-- 
2.43.0


From 48747e9a9733955b1540b4f4ce72f3f45fa8652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 26/56] fix: only use strings as docstrings and tolerate
 objects whose __doc__ is not accessible

---
 pyo3_bindgen_engine/src/syntax/class.rs       |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs      | 18 ++---------------
 pyo3_bindgen_engine/src/syntax/property.rs    | 20 ++-----------------
 .../src/utils/introspection.rs                | 11 ++++++++++
 5 files changed, 17 insertions(+), 50 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 8775407..dab2a34 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -129,14 +129,7 @@ impl Class {
             });
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(class);
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 83203ee..bb3ed7a 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -77,14 +77,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(function);
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 8afda0d..ae87fa5 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -27,14 +27,7 @@ impl Module {
         let module = py.import_bound(name.to_py().as_str())?;
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(&module);
 
         Ok(Self {
             name,
@@ -311,14 +304,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(module);
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d1c36f7..b4d3adb 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -70,15 +70,7 @@ impl Property {
 
                     // Update the docstring if it is empty
                     if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        docstring = crate::utils::introspection::docstring(&getter);
                     }
                 } else {
                     annotation = Type::try_from(typ)?;
@@ -115,15 +107,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::introspection::docstring(&setter);
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/introspection.rs b/pyo3_bindgen_engine/src/utils/introspection.rs
index 6dd61a5..c81a756 100644
--- a/pyo3_bindgen_engine/src/utils/introspection.rs
+++ b/pyo3_bindgen_engine/src/utils/introspection.rs
@@ -11,3 +11,14 @@ pub fn dir(obj: &pyo3::Bound<pyo3::types::PyAny>) -> Result<Vec<String>> {
         .map(|attr_name| Ok(attr_name?.to_string()))
         .collect()
 }
+
+/// Extract the docstring of the given object.
+/// Only non-empty strings are considered to be docstrings.
+pub fn docstring(obj: &pyo3::Bound<pyo3::types::PyAny>) -> Option<String> {
+    obj.getattr(pyo3::intern!(obj.py(), "__doc__"))
+        .ok()?
+        .downcast::<pyo3::types::PyString>()
+        .ok()
+        .map(|docstring| docstring.to_string_lossy().into_owned())
+        .filter(|docstring| !docstring.is_empty())
+}
-- 
2.43.0


From 036688696b09e20ad05198bca9fced76de0aea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 27/56] fix: avoid doctests from tilde fences and mixed
 indentation in docstrings

---
 pyo3_bindgen_engine/src/utils/text.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/text.rs b/pyo3_bindgen_engine/src/utils/text.rs
index e381431..ed31f1f 100644
--- a/pyo3_bindgen_engine/src/utils/text.rs
+++ b/pyo3_bindgen_engine/src/utils/text.rs
@@ -16,8 +16,9 @@ pub fn format_docstring(docstring: &mut String) {
     // Remove duplicate whitespace characters (except line breaks)
     conditioned_dedup(docstring, |c| c.is_whitespace() && c != '\n');
 
-    // Remove duplicate backticks to avoid potential doctests
+    // Remove duplicate backticks and tildes to avoid potential doctests
     conditioned_dedup(docstring, |c| c == '`');
+    conditioned_dedup(docstring, |c| c == '~');
 
     // If the docstring has multiple lines, make sure it is properly formatted
     if docstring.contains('\n') {
@@ -38,14 +39,14 @@ pub fn format_docstring(docstring: &mut String) {
     docstring.insert(0, ' ');
 }
 
-/// Remove duplicate characters from the input string that satisfy the given predicate.
+/// Retain only the first character of each sequence of characters that satisfy the given predicate.
 fn conditioned_dedup(input: &mut String, mut predicate: impl FnMut(char) -> bool) {
-    let mut previous = None;
+    let mut previous = false;
     input.retain(|c| {
         if predicate(c) {
-            Some(c) != std::mem::replace(&mut previous, Some(c))
+            !std::mem::replace(&mut previous, true)
         } else {
-            previous = None;
+            previous = false;
             true
         }
     });
-- 
2.43.0


From b58a9f546b7c4498af4a90c702ebf166dc012c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 28/56] fix: bind functools.partial objects as functions

---
 .../src/syntax/common/attribute_variant.rs                | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..f26a2f2 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -27,7 +27,13 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        // Note: `PyType::name()` returns the full path for types that are implemented in C (e.g. `functools.partial`)
+        let attr_type_name = Ident::from_py(
+            &attr_type
+                .getattr(pyo3::intern!(py, "__name__"))
+                .map(|a| a.to_string())
+                .unwrap_or_default(),
+        );
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
-- 
2.43.0


From bba71e9560cd3dd963682c89eb50a02416ce703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 29/56] fix: do not refer to items that are disabled and
 generate explicit submodules without traversal

---
 pyo3_bindgen_engine/src/codegen.rs       | 24 +++---
 pyo3_bindgen_engine/src/syntax/module.rs | 93 ++++++++++++++----------
 2 files changed, 69 insertions(+), 48 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 712e9b9..f794aad 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -388,22 +388,26 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ae87fa5..da22f23 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -403,9 +403,9 @@ impl Module {
                 self.imports
                     .iter()
                     .filter(|import| {
-                        top_level_modules
-                            .iter()
-                            .any(|module| module.check_path_exists_recursive(&import.origin, false))
+                        top_level_modules.iter().any(|module| {
+                            module.check_path_exists_recursive(cfg, &import.origin, false)
+                        })
                     })
                     .map(|import| import.generate(cfg))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
@@ -413,7 +413,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude()?);
+            module_content.extend(self.generate_prelude(cfg)?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -472,14 +472,13 @@ impl Module {
             );
         }
         // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Note: If the traversal of submodules is disabled, these are only submodules that were added explicitly
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
@@ -633,7 +632,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -644,7 +643,7 @@ impl Module {
             .prelude
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
-            .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            .filter(|&ident| self.check_ident_exists_immediate(cfg, ident, false))
             // Retain only attributes that can be expressed in Rust
             .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
@@ -667,7 +666,7 @@ impl Module {
                     "call{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                if !self.check_ident_exists_immediate(&ident, true) {
+                if !self.check_ident_exists_immediate(&Config::default(), &ident, true) {
                     break ident;
                 }
                 i += 1;
@@ -681,23 +680,38 @@ impl Module {
         })
     }
 
-    fn check_path_exists_recursive(&self, path: &Path, consider_imports: bool) -> bool {
+    /// Check if bindings are generated for the given path.
+    fn check_path_exists_recursive(
+        &self,
+        cfg: &Config,
+        path: &Path,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports && self.imports.iter().any(|import| import.target == *path))
             || self.submodules.iter().any(|module| module.name == *path)
-            || self.classes.iter().any(|class| class.name == *path)
-            || self.functions.iter().any(|function| function.name == *path)
-            || self.type_vars.iter().any(|type_var| type_var.name == *path)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name == *path)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_functions
+                && self.functions.iter().any(|function| function.name == *path))
+            || (cfg.generate_type_vars
+                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name == *path))
             || self
                 .submodules
                 .iter()
-                .any(|module| module.check_path_exists_recursive(path, consider_imports))
+                .any(|module| module.check_path_exists_recursive(cfg, path, consider_imports))
     }
 
-    fn check_ident_exists_immediate(&self, ident: &Ident, consider_imports: bool) -> bool {
+    /// Check if bindings are generated for the given identifier in this module.
+    fn check_ident_exists_immediate(
+        &self,
+        cfg: &Config,
+        ident: &Ident,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports
             && self
                 .imports
@@ -707,18 +721,21 @@ impl Module {
                 .submodules
                 .iter()
                 .any(|module| module.name.name() == ident)
-            || self.classes.iter().any(|class| class.name.name() == ident)
-            || self
-                .functions
-                .iter()
-                .any(|function| function.name.name() == ident)
-            || self
-                .type_vars
-                .iter()
-                .any(|type_var| type_var.name.name() == ident)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name.name() == ident)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
     }
 }
-- 
2.43.0


From 9a2b66a763f3b47a7833b69db242b0d5c3348ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 30/56] fix: embed the source code of nested modules and
 modules named after Rust keywords

---
 pyo3_bindgen_engine/src/codegen.rs       | 11 ++++------
 pyo3_bindgen_engine/src/syntax/module.rs | 26 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index f794aad..ac69947 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -161,11 +161,9 @@ impl Codegen {
         self.canonicalize();
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        self.modules
+            .iter_mut()
+            .for_each(|module| module.embed_source_code(&self.embedded_source_code));
 
         // Generate the bindings for all modules
         self.modules
@@ -274,8 +272,7 @@ impl Codegen {
                             .rev()
                             .fold(module.clone(), |package, i| {
                                 let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
+                                let mut parent_package = Module::empty(py, name);
                                 parent_package.submodules.push(package);
                                 parent_package
                             });
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index da22f23..9840d76 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -5,7 +5,7 @@ use super::{
 use crate::{Config, Result};
 use itertools::Itertools;
 use pyo3::prelude::*;
-use rustc_hash::FxHashSet as HashSet;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Module {
@@ -23,13 +23,15 @@ pub struct Module {
 }
 
 impl Module {
-    pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
-        let module = py.import_bound(name.to_py().as_str())?;
-
+    pub fn empty(py: pyo3::Python, name: Path) -> Self {
         // Extract the docstring of the module
-        let docstring = crate::utils::introspection::docstring(&module);
+        // Note: The module might not exist if its submodule is included from its source code
+        let docstring = py
+            .import_bound(name.to_py().as_str())
+            .ok()
+            .and_then(|module| crate::utils::introspection::docstring(&module));
 
-        Ok(Self {
+        Self {
             name,
             prelude: Vec::default(),
             imports: Vec::default(),
@@ -41,7 +43,15 @@ impl Module {
             docstring,
             is_package: true,
             source_code: None,
-        })
+        }
+    }
+
+    /// Embed the source code of this module and all of its submodules that were parsed from source code.
+    pub fn embed_source_code(&mut self, source_code: &HashMap<String, String>) {
+        self.source_code = source_code.get(&self.name.to_py()).cloned();
+        self.submodules
+            .iter_mut()
+            .for_each(|submodule| submodule.embed_source_code(source_code));
     }
 
     pub fn parse(cfg: &Config, module: &pyo3::Bound<pyo3::types::PyModule>) -> Result<Self> {
@@ -482,7 +492,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From 171c6e2f00b5b9f56d746d701fb085b693ccbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 31/56] fix: skip dependencies that cannot be bound and
 suppress the output of their import

---
 pyo3_bindgen_engine/src/codegen.rs | 61 +++++++++++++++---------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index ac69947..6bb7e3a 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -145,16 +145,28 @@ impl Codegen {
     }
 
     /// Generate the Rust FFI bindings for all modules added to the engine.
-    pub fn generate(mut self) -> Result<proc_macro2::TokenStream> {
+    pub fn generate(self) -> Result<proc_macro2::TokenStream> {
         if self.modules.is_empty() {
             return Err(PyBindgenError::CodegenError(
                 "There are no modules for which to generate bindings".to_string(),
             ));
         }
 
+        // Additional modules might be imported during the generation
+        pyo3::Python::with_gil(|py| {
+            crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || self.generate_modules(),
+            )
+        })
+    }
+
+    fn generate_modules(mut self) -> Result<proc_macro2::TokenStream> {
         // Parse external modules (if enabled)
         if self.cfg.generate_dependencies {
-            self.parse_dependencies()?;
+            self.parse_dependencies();
         }
 
         // Canonicalize the module tree
@@ -178,7 +190,7 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
-    fn parse_dependencies(&mut self) -> Result<()> {
+    fn parse_dependencies(&mut self) {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
             for module in input {
@@ -206,17 +218,9 @@ impl Codegen {
         pyo3::Python::with_gil(|py| {
             external_imports
                 .iter()
-                // Get the last valid module within the path of the import
-                .map(|import| {
-                    let mut last_module = py
-                        .import_bound(
-                            import
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .unwrap();
+                // Get the last valid module within the path of the import (skip dependencies that cannot be imported)
+                .filter_map(|import| {
+                    let mut last_module = py.import_bound(import.root()?.to_py().as_str()).ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -228,14 +232,15 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    let module_name = last_module.name().ok()?.to_string();
+                    Some((module_name, last_module))
                 })
                 // Parse the module and add it to the module tree
-                .unique_by(|module| module.name().unwrap().to_string())
+                .unique_by(|(module_name, _module)| module_name.clone())
                 // Filter attributes based on various configurable conditions
-                .filter(|module| {
+                .filter(|(module_name, module)| {
                     self.cfg.is_attr_allowed(
-                        &Ident::from_py(&module.name().unwrap().to_string()),
+                        &Ident::from_py(module_name),
                         &Path::from_py(
                             &module
                                 .getattr(pyo3::intern!(py, "__module__"))
@@ -245,19 +250,13 @@ impl Codegen {
                         &py.get_type_bound::<pyo3::types::PyModule>(),
                     )
                 })
-                .try_for_each(|module| {
-                    crate::io_utils::with_suppressed_python_output(
-                        module.py(),
-                        self.cfg.suppress_python_stdout,
-                        self.cfg.suppress_python_stderr,
-                        || {
-                            self.modules.push(Module::parse(&self.cfg, &module)?);
-                            Ok(())
-                        },
-                    )
-                })?;
-            Ok(())
-        })
+                .for_each(|(module_name, module)| match Module::parse(&self.cfg, &module) {
+                    Ok(module) => self.modules.push(module),
+                    Err(err) => {
+                        eprintln!("WARN: Cannot parse dependency '{module_name}': {err}. Bindings will not be generated.");
+                    }
+                });
+        });
     }
 
     fn canonicalize(&mut self) {
-- 
2.43.0


From 0dd259cb96b89633a8dd6356c381add2adf44e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 32/56] fix: resolve annotations of enums and other classes
 with custom metaclasses by their full name

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 214b11a..be55874 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -104,8 +104,18 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if t.is_subclass_of::<pyo3::types::PyTraceback>()? => Self::PyTraceback,
             t if t.is_subclass_of::<pyo3::types::PyType>()? => Self::PyType,
 
-            // Handle everything else as string
-            _ => Self::from_str(&value.to_string())?,
+            // Handle everything else as string (the representation of a class can be customized by its metaclass)
+            _ => {
+                let module = value
+                    .getattr(pyo3::intern!(value.py(), "__module__"))?
+                    .to_string();
+                let qualname = value.qualname()?;
+                if module == "builtins" {
+                    Self::from_str(&qualname)?
+                } else {
+                    Self::from_str(&format!("{module}.{qualname}"))?
+                }
+            }
         })
     }
 }
-- 
2.43.0


From de8f88cf8c805ba107ff7621f90883eb8abb04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 33/56] fix: omit property accessors whose names clash with
 other properties, classes or imports

---
 pyo3_bindgen_engine/src/syntax/class.rs       | 21 ++++++++++++++++---
 .../src/syntax/common/ident.rs                | 11 ++++++++++
 pyo3_bindgen_engine/src/syntax/module.rs      | 15 ++++++++++++-
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index dab2a34..840ce64 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -239,7 +239,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra
+                    .push(Ident::from_py("new").unused(&scoped_function_idents));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -250,12 +251,26 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra
+                    .push(Ident::from_py("call").unused(&scoped_function_idents));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    // The accessors of a property must not clash with other properties either
+                    let scoped_idents = scoped_function_idents
+                        .iter()
+                        .copied()
+                        .chain(
+                            self.properties
+                                .iter()
+                                .map(|other| other.name.name())
+                                .filter(|&other| other != property.name.name()),
+                        )
+                        .collect::<Vec<_>>();
+                    property.generate(cfg, &scoped_idents, local_types)
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 379f4ff..21f6cf3 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -24,6 +24,17 @@ impl Ident {
         Self::rs_as_py(&self.0)
     }
 
+    /// Append the lowest number (if any) to the identifier that makes it differ from all of the given identifiers.
+    pub fn unused(&self, taken: &[&Self]) -> Self {
+        let mut ident = self.clone();
+        let mut i = 0;
+        while taken.contains(&&ident) {
+            i += 1;
+            ident = Self::from_py(&format!("{self}{i}"));
+        }
+        ident
+    }
+
     fn rs_as_py(value: &str) -> &str {
         value.strip_prefix("r#").unwrap_or(value)
     }
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 9840d76..708b691 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -468,8 +468,21 @@ impl Module {
                 self.properties
                     .iter()
                     .map(|property| {
+                        // The accessors of a property must not clash with any other item either
+                        let scoped_idents = scoped_function_idents
+                            .iter()
+                            .copied()
+                            .chain(
+                                self.properties
+                                    .iter()
+                                    .map(|other| other.name.name())
+                                    .chain(self.classes.iter().map(|class| class.name.name()))
+                                    .chain(self.imports.iter().map(|import| import.target.name()))
+                                    .filter(|&other| other != property.name.name()),
+                            )
+                            .collect::<Vec<_>>();
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(cfg, &scoped_idents, &local_types)
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
-- 
2.43.0


From d9e55fbceeeb48a6a254432d937830181bedc4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 34/56] fix: execute the source code of modules in a fresh
 module

---
 pyo3_bindgen_engine/src/codegen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 6bb7e3a..9b552db 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -109,6 +109,10 @@ impl Codegen {
                 self.cfg.suppress_python_stdout,
                 self.cfg.suppress_python_stderr,
                 || {
+                    // Remove any previous module of the same name, because the code would otherwise be executed inside of it
+                    py.import_bound(pyo3::intern!(py, "sys"))?
+                        .getattr(pyo3::intern!(py, "modules"))?
+                        .call_method1(pyo3::intern!(py, "pop"), (module_name, py.None()))?;
                     Ok(pyo3::types::PyModule::from_code_bound(
                         py,
                         source_code,
-- 
2.43.0


From 7e70dda915ab7ecdd2a9f0a72b8c48d5e6cacfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 35/56] fix: preserve Python items named super in Python paths

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index fa14647..10fe772 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -60,8 +60,8 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            // Note: Python items that are called `super` are represented as `r#super`
+            .map(|s| if s.as_rs() == "super" { "" } else { s.as_py() })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From eb7becbaeb04cdf7e586bc1d3eecdadd9e8e975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 36/56] fix: bind items of a module that was added in two
 versions only once

---
 pyo3_bindgen_engine/src/codegen.rs | 72 +++++++++++++-----------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 9b552db..60874bb 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -307,6 +307,21 @@ impl Codegen {
             duplicates
         }
 
+        // Merge items that share the same name, such that the item of the last module is kept
+        fn merge_items<T: Clone>(
+            input: &[Module],
+            items: impl Fn(&Module) -> &Vec<T>,
+            name: impl Fn(&T) -> &Path,
+        ) -> Vec<T> {
+            input
+                .iter()
+                .rev()
+                .flat_map(|module| items(module).iter())
+                .unique_by(|item| name(item))
+                .cloned()
+                .collect()
+        }
+
         fn merge_duplicate_submodules_recursive(input: &[Module]) -> Module {
             Module {
                 prelude: input
@@ -317,14 +332,7 @@ impl Codegen {
                     })
                     .into_iter()
                     .collect(),
-                imports: input
-                    .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.imports.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
-                    .collect(),
+                imports: merge_items(input, |module| &module.imports, |import| &import.target),
                 submodules: {
                     let mut submodules =
                         input.iter().fold(Vec::default(), |mut submodule, module| {
@@ -341,38 +349,22 @@ impl Codegen {
                         });
                     submodules
                 },
-                classes: input
-                    .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.classes.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
-                    .collect(),
-                functions: input
-                    .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.functions.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
-                    .collect(),
-                type_vars: input
-                    .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.type_vars.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
-                    .collect(),
-                properties: input
-                    .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.properties.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
-                    .collect(),
+                classes: merge_items(input, |module| &module.classes, |class| &class.name),
+                functions: merge_items(
+                    input,
+                    |module| &module.functions,
+                    |function| &function.name,
+                ),
+                type_vars: merge_items(
+                    input,
+                    |module| &module.type_vars,
+                    |type_var| &type_var.name,
+                ),
+                properties: merge_items(
+                    input,
+                    |module| &module.properties,
+                    |property| &property.name,
+                ),
                 ..input[0].clone()
             }
         }
-- 
2.43.0


From 4fc26a72b82b13b115cf937d71d511042f2a257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 37/56] fix: do not confuse primitive types with local types of
 the same name

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 27 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 4804257..ddc980a 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -152,6 +152,19 @@ impl Type {
         matches!(inner_types, [_, Self::PyEllipsis])
     }
 
+    /// Name of a primitive type that cannot be confused with a local type of the same name.
+    fn primitive(name: &str, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
+        let ident = quote::format_ident!("{name}");
+        if local_types
+            .values()
+            .any(|path| path.len() == 1 && path[0].as_py() == name)
+        {
+            quote!(::std::primitive::#ident)
+        } else {
+            quote!(#ident)
+        }
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
@@ -161,13 +174,17 @@ impl Type {
             Self::Other(..) => self.map_type(local_types),
 
             // Primitives
-            Self::PyBool => OutputType::new_identical(quote!(bool)),
+            Self::PyBool => OutputType::new_identical(Self::primitive("bool", local_types)),
             Self::PyByteArray | Self::PyBytes => {
-                OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8]))
+                let u8 = Self::primitive("u8", local_types);
+                OutputType::new(quote!(::std::vec::Vec<#u8>), quote!(&[#u8]))
+            }
+            Self::PyFloat => OutputType::new_identical(Self::primitive("f64", local_types)),
+            Self::PyLong => OutputType::new_identical(Self::primitive("i64", local_types)),
+            Self::PyString => {
+                let str = Self::primitive("str", local_types);
+                OutputType::new(quote!(::std::string::String), quote!(&#str))
             }
-            Self::PyFloat => OutputType::new_identical(quote!(f64)),
-            Self::PyLong => OutputType::new_identical(quote!(i64)),
-            Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
 
             // Enums
             Self::Optional(inner_type) => {
-- 
2.43.0


From a88ace61f6f0f8bf44053f6b081ff94ad710dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 38/56] fix: do not extract the annotated type from the
 coroutine of an async function

---
 pyo3_bindgen_engine/src/syntax/function.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bb3ed7a..1859bb5 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -135,7 +135,15 @@ impl Function {
             let return_annotation = {
                 let return_annotation =
                     function_signature.getattr(pyo3::intern!(py, "return_annotation"))?;
-                if return_annotation.is(&function_signature.getattr(pyo3::intern!(py, "empty"))?) {
+                // Note: Calling a coroutine function returns a coroutine instead of the annotated type
+                let is_coroutine_function = py
+                    .import_bound(pyo3::intern!(py, "inspect"))?
+                    .call_method1(pyo3::intern!(py, "iscoroutinefunction"), (function,))?
+                    .extract::<bool>()?;
+                if is_coroutine_function
+                    || return_annotation
+                        .is(&function_signature.getattr(pyo3::intern!(py, "empty"))?)
+                {
                     Type::Unknown
                 } else {
                     return_annotation.try_into()?
-- 
2.43.0


From 02dc57ec2a4de4522b0959ac437f9e1d51a57d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 39/56] fix: recognize plain set and frozenset when nested or
 written as strings

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index be55874..45de597 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -277,6 +277,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyFrozenSet(Box::new(inner_type))
             }
+            "frozenset" => Self::PyFrozenSet(Box::new(Self::Unknown)),
             list if list.starts_with("list[") && list.ends_with(']') => {
                 let inner_type = Self::from_str(
                     list.strip_prefix("list[")
@@ -327,6 +328,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PySet(Box::new(inner_type))
             }
+            "set" => Self::PySet(Box::new(Self::Unknown)),
             tuple if tuple.starts_with("tuple[") && tuple.ends_with(']') => {
                 let inner_types = split_sequence(
                     tuple
-- 
2.43.0


From b00393dd729477b6c02c4032bd715261fc130074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 40/56] fix: do not let previously imported submodules
 influence the prelude of a package

---
 pyo3_bindgen_engine/src/syntax/module.rs | 32 ++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 708b691..1513a80 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -608,14 +608,32 @@ impl Module {
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
+        // Note: Submodules are not considered because they become attributes only once they are imported
         {
+            let is_submodule = |attr_name: &Ident| {
+                module.getattr(attr_name.as_py()).is_ok_and(|attr| {
+                    attr.downcast::<pyo3::types::PyModule>().is_ok_and(|attr| {
+                        attr.name().is_ok_and(|name| {
+                            Path::from_py(&name.to_string())
+                                == module_name.join(&attr_name.clone().into())
+                        })
+                    })
+                })
+            };
             let public_attr_names_set: HashSet<_> = crate::utils::introspection::dir(module)
                 .unwrap_or_default()
                 .iter()
                 .map(|attr_name| Ident::from_py(attr_name))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
+                .filter(|attr_name| !is_submodule(attr_name))
+                .collect();
+            let index_attr_names_set: HashSet<_> = index_attr_names
+                .iter()
+                .filter(|&attr_name| {
+                    module.getattr(attr_name.as_py()).is_ok() && !is_submodule(attr_name)
+                })
+                .cloned()
                 .collect();
-            let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
             if index_attr_names_set == public_attr_names_set {
                 return Vec::new();
@@ -643,13 +661,13 @@ impl Module {
         }
 
         // Retain only allowed attributes
+        // Note: Names that are not attributes (yet) might be submodules
         index_attr_names.retain(|attr_name| {
-            if let Ok(attr) = module.getattr(attr_name.as_py()) {
-                let attr_type = attr.get_type();
-                cfg.is_attr_allowed(attr_name, module_name, &attr_type)
-            } else {
-                false
-            }
+            let attr_type = module.getattr(attr_name.as_py()).map_or_else(
+                |_| module.py().get_type_bound::<pyo3::types::PyModule>(),
+                |attr| attr.get_type(),
+            );
+            cfg.is_attr_allowed(attr_name, module_name, &attr_type)
         });
 
         index_attr_names
-- 
2.43.0


From de8816803e8d005c697d52d920dd1d15c3cda0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 41/56] fix: skip modules whose names are not valid in Rust

---
 pyo3_bindgen_engine/src/syntax/module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 1513a80..839c95d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -64,6 +64,11 @@ impl Module {
                 "Module does not have a name".to_string(),
             ));
         }
+        if let Some(segment) = name.iter().find(|&s| syn::Ident::try_from(s).is_err()) {
+            return Err(crate::PyBindgenError::ParseError(format!(
+                "Name of the module contains an invalid Rust ident '{segment}'"
+            )));
+        }
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-- 
2.43.0


From e4d9f76ab2bfccff407266962beeb22cc99d0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 42/56] fix: skip names that are only rejected after the
 expansion of macros

---
 .../src/syntax/common/ident.rs                | 33 +++++++++++++++++--
 pyo3_bindgen_engine/src/syntax/common/path.rs |  7 +++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 21f6cf3..7b9cc3c 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -1,3 +1,5 @@
+use pyo3::prelude::*;
+
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Ident(String);
@@ -40,25 +42,50 @@ impl Ident {
     }
 
     fn py_to_rs(value: &str) -> String {
-        if syn::parse_str::<syn::Ident>(value).is_ok() {
+        if Self::parse_rs(value).is_ok() {
             value.to_owned()
         } else {
             format!("r#{value}")
         }
     }
+
+    fn parse_rs(value: &str) -> Result<syn::Ident, syn::Error> {
+        // Inside of procedural macros, the compiler would report invalid names as errors only after the expansion
+        let name = Self::rs_as_py(value);
+        let is_valid = !matches!(value, "r#_" | "r#crate" | "r#self" | "r#super" | "r#Self")
+            && if name.is_ascii() {
+                name.starts_with(|c: char| !c.is_ascii_digit())
+                    && name.chars().all(|c| c == '_' || c.is_ascii_alphanumeric())
+            } else {
+                pyo3::Python::with_gil(|py| {
+                    pyo3::types::PyString::new_bound(py, name)
+                        .call_method0(pyo3::intern!(py, "isidentifier"))
+                        .and_then(|is_identifier| is_identifier.is_truthy())
+                })
+                .unwrap_or(false)
+            };
+        if is_valid {
+            syn::parse_str::<syn::Ident>(value)
+        } else {
+            Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                format!("'{value}' is not a valid identifier"),
+            ))
+        }
+    }
 }
 
 impl TryFrom<Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(&value.into_rs())
+        Ident::parse_rs(value.as_rs())
     }
 }
 
 impl TryFrom<&Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: &Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(value.as_rs())
+        Ident::parse_rs(value.as_rs())
     }
 }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 10fe772..ea23f15 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -273,13 +273,18 @@ impl std::cmp::Ord for Path {
 impl TryFrom<Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: Path) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Path>(&value.into_rs())
+        (&value).try_into()
     }
 }
 
 impl TryFrom<&Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: &Path) -> Result<Self, Self::Error> {
+        for segment in value.iter() {
+            if !matches!(segment.as_rs(), "crate" | "self" | "super") {
+                syn::Ident::try_from(segment)?;
+            }
+        }
         syn::parse_str::<syn::Path>(&value.to_rs())
     }
 }
-- 
2.43.0


From 802879c2d88888f7b7cc04774bb6929731d962c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 43/56] fix: bind modules whose __path__ cannot be accessed or
 iterated

---
 pyo3_bindgen_engine/src/syntax/module.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 839c95d..ddf1c53 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -78,11 +78,18 @@ impl Module {
         };
 
         // Determine if the module is a package that contains submodules
-        let is_package = module.hasattr(pyo3::intern!(py, "__path__"))?;
+        let is_package = module
+            .hasattr(pyo3::intern!(py, "__path__"))
+            .unwrap_or(false);
 
         // Extract the list of all submodules for packages
         let mut submodules_to_process = if is_package {
-            Self::extract_submodules(cfg, module)?
+            Self::extract_submodules(cfg, module).unwrap_or_else(|err| {
+                eprintln!(
+                    "WARN: Cannot extract submodules of '{name}': {err}. Their bindings will not be generated."
+                );
+                HashSet::default()
+            })
         } else {
             HashSet::default()
         };
-- 
2.43.0


From 84145bd26e6d1791f861c1fe4af31a64b7daab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 44/56] fix: bind submodules that are instances of customized
 module types

---
 pyo3_bindgen_engine/src/syntax/module.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ddf1c53..d934009 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -116,13 +116,18 @@ impl Module {
             .filter_map(|attr_name| {
                 if let Ok(attr) = module.getattr(attr_name.as_py()) {
 
-                    let attr_module = Path::from_py(
-                        &attr
-                        .getattr(pyo3::intern!(py, "__module__"))
-                        .map(|a| a.to_string())
-                        .unwrap_or_default(),
-                    );
                     let attr_type = attr.get_type();
+                    // Note: Modules are identified only by their name, `__module__` would be the origin of their type
+                    let attr_module = if attr.is_instance_of::<pyo3::types::PyModule>() {
+                        Path::default()
+                    } else {
+                        Path::from_py(
+                            &attr
+                            .getattr(pyo3::intern!(py, "__module__"))
+                            .map(|a| a.to_string())
+                            .unwrap_or_default(),
+                        )
+                    };
 
                     Some((attr, attr_name, attr_module, attr_type))
                 } else {
-- 
2.43.0


From 8471c92407eda7617c88e0cdb90e9cb8de44cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 45/56] fix: generate dependencies that are instances of
 customized module types

---
 pyo3_bindgen_engine/src/codegen.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 60874bb..bcb320a 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -242,15 +242,11 @@ impl Codegen {
                 // Parse the module and add it to the module tree
                 .unique_by(|(module_name, _module)| module_name.clone())
                 // Filter attributes based on various configurable conditions
-                .filter(|(module_name, module)| {
+                .filter(|(module_name, _module)| {
+                    // Note: Modules are identified only by their name, `__module__` would be the origin of their type
                     self.cfg.is_attr_allowed(
                         &Ident::from_py(module_name),
-                        &Path::from_py(
-                            &module
-                                .getattr(pyo3::intern!(py, "__module__"))
-                                .map(|a| a.to_string())
-                                .unwrap_or_default(),
-                        ),
+                        &Path::default(),
                         &py.get_type_bound::<pyo3::types::PyModule>(),
                     )
                 })
-- 
2.43.0


From 4478af4ea980e1420a2274e60fd6db54b24a21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 46/56] fix: Re-export functions under the name that they have
 in the module of their origin

---
 pyo3_bindgen_engine/src/syntax/module.rs | 51 +++++++++++++++++++++---
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index d934009..fd82359 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -148,12 +148,8 @@ impl Module {
                     ?
                 {
                     AttributeVariant::Import => {
-                        let origin = attr_module.join(&Path::from_py(
-                            &attr
-                                .getattr(pyo3::intern!(py, "__name__"))
-                                .map(|a| a.to_string())
-                                .unwrap_or(attr_name.as_py().to_owned()),
-                        ));
+                        let origin = attr_module
+                            .join(&Self::find_origin_name(&attr, &attr_name, &attr_module));
 
                         // Skip if the origin is the same as the target
                         if origin == attr_name_full {
@@ -603,6 +599,49 @@ impl Module {
             .collect()
     }
 
+    /// Find the name under which an imported attribute is available in the module of its origin.
+    fn find_origin_name(
+        attr: &pyo3::Bound<pyo3::PyAny>,
+        attr_name: &Ident,
+        attr_module: &Path,
+    ) -> Path {
+        let py = attr.py();
+        let name = Path::from_py(
+            &attr
+                .getattr(pyo3::intern!(py, "__name__"))
+                .map(|a| a.to_string())
+                .unwrap_or(attr_name.as_py().to_owned()),
+        );
+
+        // `__name__` of functions does not have to match the name of the attribute (e.g. lambdas and decorated functions)
+        let Ok(origin) = py
+            .import_bound(pyo3::intern!(py, "sys"))
+            .and_then(|sys| sys.getattr(pyo3::intern!(py, "modules")))
+            .and_then(|modules| modules.get_item(attr_module.to_py()))
+            .and_then(|origin| Ok(origin.downcast_into::<pyo3::types::PyModule>()?))
+        else {
+            return name;
+        };
+        let members = origin.dict();
+        let is_available_as = |name: &str| {
+            members
+                .get_item(name)
+                .is_ok_and(|member| member.is_some_and(|member| member.is(attr)))
+        };
+        if is_available_as(&name.to_py()) {
+            name
+        } else if is_available_as(attr_name.as_py()) {
+            attr_name.clone().into()
+        } else {
+            members
+                .iter()
+                .find(|(_member_name, member)| member.is(attr))
+                .map_or(name, |(member_name, _member)| {
+                    Ident::from_py(&member_name.to_string()).into()
+                })
+        }
+    }
+
     fn extract_prelude(
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
-- 
2.43.0


From c6aa9fd5be2a3a9a4a39437c322625e3e9e7bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 47/56] fix: Do not mistake instances of types.SimpleNamespace
 for types

---
 pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index f26a2f2..6ede732 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -59,7 +59,9 @@ impl AttributeVariant {
             .is_truthy()?;
         let is_closure =
             attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
-        let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
+        // Note: `types.SimpleNamespace` is a container of values (e.g. `sys.implementation`)
+        let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str())
+            && attr_type_name.as_py() != "SimpleNamespace";
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
         let is_in_locals = attr.to_string().contains("<locals>");
-- 
2.43.0


From ebebf36bd40fce85ad8cdcc1c8962116f516e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 48/56] fix: Skip submodules that share their name with a type
 of the package

---
 pyo3_bindgen_engine/src/syntax/module.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index fd82359..6a174b4 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -304,6 +304,18 @@ impl Module {
                         return None;
                     }
 
+                    // Types and modules share the same namespace in Rust
+                    if classes.iter().any(|class| class.name == full_submodule_name)
+                        || type_vars
+                            .iter()
+                            .any(|type_var| type_var.name == full_submodule_name)
+                    {
+                        eprintln!(
+                            "WARN: Submodule '{full_submodule_name}' shares its name with a type. Bindings for the submodule will not be generated.",
+                        );
+                        return None;
+                    }
+
                     // Try to import both as a package and as a attribute of the current module
                     py.import_bound(full_submodule_name.to_py().as_str())
                         .or_else(|_| {
-- 
2.43.0


From feac4da24d383e598adbbf5c697f79579209a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 49/56] fix: Avoid name clashes of functions that are renamed

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 1859bb5..57d1dcc 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -338,7 +338,8 @@ impl Function {
                 let new_name = Ident::from_py(&format!(
                     "f_{}",
                     name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
+                ))
+                .unused(scoped_function_idents);
                 if let Ok(sanitized_ident) = new_name.clone().try_into() {
                     eprintln!(
                         "WARN: Function '{}' is an invalid Rust ident for a function name. Renamed to '{}'.",
-- 
2.43.0


From 6f5b0faa5f63ddaeb584dddb1a189ba1e2ea76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 50/56] fix: Avoid name clashes of the traits that are
 generated for classes

---
 pyo3_bindgen_engine/src/syntax/class.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 840ce64..e1fe4db 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -294,8 +294,19 @@ impl Class {
         });
 
         // Add the trait and implementation block for bounded struct
-        let trait_ident: syn::Ident =
-            Ident::from_py(&format!("{struct_ident}Methods")).try_into()?;
+        let trait_ident: syn::Ident = {
+            // The trait must not clash with any other type of the module
+            let type_idents = local_types
+                .keys()
+                .filter(|path| {
+                    path.len() == 1 || path[..path.len() - 1] == self.name[..self.name.len() - 1]
+                })
+                .map(Path::name)
+                .collect::<Vec<_>>();
+            Ident::from_py(&format!("{struct_ident}Methods"))
+                .unused(&type_idents)
+                .try_into()?
+        };
         let struct_ident_str = struct_ident.to_string();
         output.extend(quote::quote! {
             /// These methods are defined for the `Bound<'py, T>` smart pointer, so to use
-- 
2.43.0


From b45906c541ad43dda619597ea0ee2b46518d4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 51/56] fix: Compare the names of traits without the prefix of
 raw identifiers

---
 pyo3_bindgen_engine/src/syntax/class.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e1fe4db..394cef1 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -303,7 +303,8 @@ impl Class {
                 })
                 .map(Path::name)
                 .collect::<Vec<_>>();
-            Ident::from_py(&format!("{struct_ident}Methods"))
+            let struct_name = Ident::from_rs(&struct_ident.to_string());
+            Ident::from_py(&format!("{struct_name}Methods"))
                 .unused(&type_idents)
                 .try_into()?
         };
-- 
2.43.0


From 7240ea7b062439565997588a17325269c643eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 52/56] fix: Do not confuse primitive types with imported types
 of the same name

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ddc980a..331d1e7 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -155,8 +155,10 @@ impl Type {
     /// Name of a primitive type that cannot be confused with a local type of the same name.
     fn primitive(name: &str, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
         let ident = quote::format_ident!("{name}");
+        // Note: Imported types are included under the name with which they are imported
         if local_types
-            .values()
+            .iter()
+            .flat_map(|(path, relative_path)| [path, relative_path])
             .any(|path| path.len() == 1 && path[0].as_py() == name)
         {
             quote!(::std::primitive::#ident)
-- 
2.43.0


From 4540d489c57d35ecf53b09df4055ca32795ef67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 53/56] fix: Bind what is imported from submodules that are
 overwritten by imports or types

---
 pyo3_bindgen_engine/src/codegen.rs       |  25 +++-
 pyo3_bindgen_engine/src/syntax/module.rs | 168 +++++++++++++----------
 2 files changed, 121 insertions(+), 72 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index bcb320a..2aeccf3 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -319,7 +319,7 @@ impl Codegen {
         }
 
         fn merge_duplicate_submodules_recursive(input: &[Module]) -> Module {
-            Module {
+            let mut module = Module {
                 prelude: input
                     .iter()
                     .fold(HashSet::default(), |mut prelude, module| {
@@ -362,7 +362,28 @@ impl Codegen {
                     |property| &property.name,
                 ),
                 ..input[0].clone()
-            }
+            };
+
+            // Types and modules share the same namespace in Rust, so only the requested submodules are kept
+            let Module {
+                submodules,
+                classes,
+                type_vars,
+                ..
+            } = &mut module;
+            let is_submodule = |name: &Path| {
+                let is_submodule = submodules.iter().any(|submodule| submodule.name == *name);
+                if is_submodule {
+                    eprintln!(
+                        "WARN: '{name}' shares its name with a requested submodule. Bindings will not be generated."
+                    );
+                }
+                is_submodule
+            };
+            classes.retain(|class| !is_submodule(&class.name));
+            type_vars.retain(|type_var| !is_submodule(&type_var.name));
+
+            module
         }
 
         get_duplicate_modules(&mut self.modules)
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 6a174b4..6546840 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -96,7 +96,7 @@ impl Module {
 
         // Initialize lists for all other members of the module
         let mut imports = Vec::new();
-        let mut conflicting_imports = Vec::new();
+        let mut overwritten_submodules = HashSet::default();
         let mut classes: Vec<Class> = Vec::new();
         let mut type_vars = Vec::new();
         let mut functions = Vec::new();
@@ -173,16 +173,13 @@ impl Module {
 
                         // Determine if the import overwrites a submodule
                         let import_overwrites_submodule = submodules_to_process.contains(&attr_name);
+                        if import_overwrites_submodule {
+                            overwritten_submodules.insert(attr_name_full.clone());
+                        }
 
                         // Generate the import
                         let import = Import::new(origin, attr_name_full);
-
-                        // Add the import to the appropriate list
-                        if import_overwrites_submodule {
-                            conflicting_imports.push(import);
-                        } else {
-                            imports.push(import);
-                        }
+                        imports.push(import);
                     }
                     AttributeVariant::Module => {
                         // Note: This should technically not be necessary as `Self::extract_submodules` is supposed to extract all submodules
@@ -233,6 +230,96 @@ impl Module {
                 eprintln!("WARN: Cannot parse an attribute of '{name}': {err}. Bindings will not be generated.");
             });
 
+        // Types overwrite submodules of the same name because they share the same namespace in Rust
+        overwritten_submodules.extend(
+            classes
+                .iter()
+                .map(|class| &class.name)
+                .chain(type_vars.iter().map(|type_var| &type_var.name))
+                .filter(|path| submodules_to_process.contains(path.name()))
+                .cloned(),
+        );
+
+        // Handle imports from overwritten submodules separately because their origin is not bound
+        if cfg.traverse_submodules && !overwritten_submodules.is_empty() {
+            let conflicting_imports;
+            (conflicting_imports, imports) = imports.into_iter().partition(|import: &Import| {
+                overwritten_submodules
+                    .iter()
+                    .any(|submodule| import.origin.starts_with(submodule))
+            });
+
+            let mut origin_modules = HashMap::default();
+            for conflicting_import in conflicting_imports {
+                // The overwritten submodule itself cannot be imported
+                if overwritten_submodules.contains(&conflicting_import.origin) {
+                    continue;
+                }
+
+                // Note: The origin might be nested deeper in the submodule
+                let origin_module = conflicting_import.origin.parent().unwrap_or_default();
+                let origin_module =
+                    origin_modules
+                        .entry(origin_module)
+                        .or_insert_with_key(|name| {
+                            py.import_bound(name.to_py().as_str())
+                                .map_err(crate::PyBindgenError::from)
+                                .and_then(|module| Self::parse(cfg, &module))
+                                .ok()
+                        });
+                let Some(origin_module) = origin_module else {
+                    continue;
+                };
+
+                // It could be any attribute, so all of them need to be checked
+                if let Some(mut import) = origin_module
+                    .imports
+                    .iter()
+                    .find(|import| import.target == conflicting_import.origin)
+                    .cloned()
+                {
+                    import.target = conflicting_import.target.clone();
+                    imports.push(import);
+                }
+                if let Some(mut class) = origin_module
+                    .classes
+                    .iter()
+                    .find(|class| class.name == conflicting_import.origin)
+                    .cloned()
+                {
+                    class.name = conflicting_import.target.clone();
+                    classes.push(class);
+                }
+                if let Some(mut type_var) = origin_module
+                    .type_vars
+                    .iter()
+                    .find(|type_var| type_var.name == conflicting_import.origin)
+                    .cloned()
+                {
+                    type_var.name = conflicting_import.target.clone();
+                    type_vars.push(type_var);
+                }
+                if let Some(mut function) = origin_module
+                    .functions
+                    .iter()
+                    .find(|function| function.name == conflicting_import.origin)
+                    .cloned()
+                {
+                    function.name = conflicting_import.target.clone();
+                    functions.push(function);
+                }
+                if let Some(mut property) = origin_module
+                    .properties
+                    .iter()
+                    .find(|property| property.name == conflicting_import.origin)
+                    .cloned()
+                {
+                    property.name = conflicting_import.target.clone();
+                    properties.push(property);
+                }
+            }
+        }
+
         // Process submodules
         let submodules = if cfg.traverse_submodules {
             submodules_to_process
@@ -249,69 +336,10 @@ impl Module {
                 .filter_map(|submodule_name| {
                     let full_submodule_name = name.join(&submodule_name.clone().into());
 
-                    // Handle submodules that are overwritten by imports separately
-                    if let Some(conflicting_import) = conflicting_imports
-                        .iter()
-                        .find(|import| import.target == full_submodule_name)
-                    {
-                        if let Ok(submodule) = py
-                            .import_bound(full_submodule_name.to_py().as_str())
-                            .map_err(crate::PyBindgenError::from)
-                            .and_then(|module| Self::parse(cfg, &module))
-                        {
-                            // It could be any attribute, so all of them need to be checked
-                            if let Some(mut import) = submodule
-                                .imports
-                                .into_iter()
-                                .find(|import| import.target == conflicting_import.origin)
-                            {
-                                import.target = conflicting_import.target.clone();
-                                imports.push(import);
-                            }
-                            if let Some(mut class) = submodule
-                                .classes
-                                .into_iter()
-                                .find(|class| class.name == conflicting_import.origin)
-                            {
-                                class.name = conflicting_import.target.clone();
-                                classes.push(class);
-                            }
-                            if let Some(mut type_var) = submodule
-                                .type_vars
-                                .into_iter()
-                                .find(|type_var| type_var.name == conflicting_import.origin)
-                            {
-                                type_var.name = conflicting_import.target.clone();
-                                type_vars.push(type_var);
-                            }
-                            if let Some(mut function) = submodule
-                                .functions
-                                .into_iter()
-                                .find(|function| function.name == conflicting_import.origin)
-                            {
-                                function.name = conflicting_import.target.clone();
-                                functions.push(function);
-                            }
-                            if let Some(mut property) = submodule
-                                .properties
-                                .into_iter()
-                                .find(|property| property.name == conflicting_import.origin)
-                            {
-                                property.name = conflicting_import.target.clone();
-                                properties.push(property);
-                            }
-                        }
-                        return None;
-                    }
-
-                    // Types and modules share the same namespace in Rust
-                    if classes.iter().any(|class| class.name == full_submodule_name)
-                        || type_vars
-                            .iter()
-                            .any(|type_var| type_var.name == full_submodule_name)
-                    {
+                    // Skip submodules that are overwritten by imports or types
+                    if overwritten_submodules.contains(&full_submodule_name) {
                         eprintln!(
-                            "WARN: Submodule '{full_submodule_name}' shares its name with a type. Bindings for the submodule will not be generated.",
+                            "WARN: Submodule '{full_submodule_name}' shares its name with another attribute. Bindings for the submodule will not be generated.",
                         );
                         return None;
                     }
-- 
2.43.0


From 878acf9e03ca9864908860872e73376a05c140eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 54/56] fix: Resolve forward references and aliased modules in
 annotations

---
 pyo3_bindgen_engine/src/syntax/function.rs    | 14 ++++++-
 pyo3_bindgen_engine/src/syntax/module.rs      |  7 ++--
 pyo3_bindgen_engine/src/syntax/property.rs    | 13 +++++-
 pyo3_bindgen_engine/src/typing/from_py.rs     | 19 +++++++++
 pyo3_bindgen_engine/src/typing/mod.rs         | 39 ++++++++++++++++++
 .../src/utils/introspection.rs                | 40 +++++++++++++++++++
 6 files changed, 124 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 57d1dcc..abfabf9 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -84,6 +84,16 @@ impl Function {
             .import_bound(pyo3::intern!(py, "inspect"))?
             .call_method1(pyo3::intern!(py, "signature"), (function,))
         {
+            // Names in the annotations refer to the module in which the function is defined
+            let namespace = crate::utils::introspection::namespace(function);
+            let parse_annotation = |annotation: pyo3::Bound<pyo3::PyAny>| {
+                let annotation = Type::try_from(annotation)?;
+                Result::Ok(match &namespace {
+                    Some(namespace) => annotation.resolve(namespace),
+                    None => annotation,
+                })
+            };
+
             // Extract the parameters of the function
             let mut parameters = function_signature
                 .getattr(pyo3::intern!(py, "parameters"))?
@@ -108,7 +118,7 @@ impl Function {
                             if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                 Type::Unknown
                             } else {
-                                annotation.try_into()?
+                                parse_annotation(annotation)?
                             }
                         }
                     };
@@ -146,7 +156,7 @@ impl Function {
                 {
                     Type::Unknown
                 } else {
-                    return_annotation.try_into()?
+                    parse_annotation(return_annotation)?
                 }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 6546840..62a9d23 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -444,10 +444,9 @@ impl Module {
                                 .to_py()
                                 .strip_prefix(&format!("{}.", import.origin.to_py()))
                             {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
+                                // Prepend the target name to support aliasing
+                                Path::from(import.target.name().to_owned())
+                                    .join(&Path::from_py(stripped_path))
                             } else {
                                 import.target.name().to_owned().into()
                             }
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index b4d3adb..68d72fb 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -46,6 +46,15 @@ impl Property {
                 docstring.clone_from(&setter_docstring);
             }
             PropertyOwner::Class => {
+                // Names in the annotations refer to the module in which the function is defined
+                let parse_annotation =
+                    |function: &pyo3::Bound<pyo3::PyAny>, annotation: pyo3::Bound<pyo3::PyAny>| {
+                        let annotation = Type::try_from(annotation)?;
+                        Result::Ok(match crate::utils::introspection::namespace(function) {
+                            Some(namespace) => annotation.resolve(&namespace),
+                            None => annotation,
+                        })
+                    };
                 let signature = py
                     .import_bound(pyo3::intern!(py, "inspect"))?
                     .getattr(pyo3::intern!(py, "signature"))?;
@@ -61,7 +70,7 @@ impl Property {
                             {
                                 Type::Unknown
                             } else {
-                                return_annotation.try_into()?
+                                parse_annotation(&getter, return_annotation)?
                             }
                         };
                     } else {
@@ -98,7 +107,7 @@ impl Property {
                                         // Assume that the setter accepts the type returned by the getter
                                         annotation.clone()
                                     } else {
-                                        param_annotation.try_into()?
+                                        parse_annotation(&setter, param_annotation)?
                                     }
                                 }
                                 None => Type::Unknown,
diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 45de597..c3f58b5 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -202,6 +202,12 @@ impl Type {
                     wrapping_type
                 },
             )
+        } else if let Ok(forward_reference) = value
+            .getattr(pyo3::intern!(py, "__forward_arg__"))
+            .and_then(|forward_reference| forward_reference.extract::<String>())
+        {
+            // Handle forward references as the string they refer to
+            Type::from_str(&forward_reference)
         } else {
             // Handle everything else as string
             Type::from_str(&value.to_string())
@@ -458,6 +464,19 @@ impl std::str::FromStr for Type {
             // Forbidden types
             forbidden if crate::config::FORBIDDEN_TYPE_NAMES.contains(&forbidden) => Self::PyAny,
 
+            // Forward references
+            reference
+                if reference.len() > 2
+                    && reference.starts_with('\'')
+                    && reference.ends_with('\'')
+                    && !reference[1..reference.len() - 1].contains('\'') =>
+            {
+                Self::from_str(&reference[1..reference.len() - 1])?
+            }
+            reference if reference.starts_with("ForwardRef('") && reference.ends_with("')") => {
+                Self::from_str(&reference["ForwardRef('".len()..reference.len() - "')".len()])?
+            }
+
             // Other types, that might be known (custom types of modules)
             other => Self::Other(other.to_owned()),
         })
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index e1dcdae..e569b24 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -72,6 +72,45 @@ pub enum Type {
 }
 
 impl Type {
+    /// Resolve all names of types (e.g. forward references) within the namespace in which they are used.
+    pub fn resolve(self, namespace: &pyo3::Bound<pyo3::types::PyDict>) -> Self {
+        let resolve_box = |typ: Box<Self>| Box::new(typ.resolve(namespace));
+        let resolve_all = |types: Vec<Self>| {
+            types
+                .into_iter()
+                .map(|typ| typ.resolve(namespace))
+                .collect::<Vec<_>>()
+        };
+        match self {
+            Self::Other(name) => {
+                crate::utils::introspection::find_type(namespace, &name)
+                    .and_then(|typ| Self::try_from(typ).ok())
+                    .unwrap_or(Self::Other(name))
+            }
+            Self::Optional(inner_type) => Self::Optional(resolve_box(inner_type)),
+            Self::Union(inner_types) => Self::Union(resolve_all(inner_types)),
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => Self::PyDict {
+                key_type: resolve_box(key_type),
+                value_type: resolve_box(value_type),
+            },
+            Self::PyFrozenSet(inner_type) => Self::PyFrozenSet(resolve_box(inner_type)),
+            Self::PyList(inner_type) => Self::PyList(resolve_box(inner_type)),
+            Self::PySet(inner_type) => Self::PySet(resolve_box(inner_type)),
+            Self::PyTuple(inner_types) => Self::PyTuple(resolve_all(inner_types)),
+            Self::PyFunction {
+                param_types,
+                return_annotation,
+            } => Self::PyFunction {
+                param_types: resolve_all(param_types),
+                return_annotation: resolve_box(return_annotation),
+            },
+            other => other,
+        }
+    }
+
     /// Determine if the Rust type that corresponds to this Python type implements `Eq + Hash`.
     fn is_hashable(&self) -> bool {
         matches!(
diff --git a/pyo3_bindgen_engine/src/utils/introspection.rs b/pyo3_bindgen_engine/src/utils/introspection.rs
index c81a756..579247a 100644
--- a/pyo3_bindgen_engine/src/utils/introspection.rs
+++ b/pyo3_bindgen_engine/src/utils/introspection.rs
@@ -12,6 +12,46 @@ pub fn dir(obj: &pyo3::Bound<pyo3::types::PyAny>) -> Result<Vec<String>> {
         .collect()
 }
 
+/// Get the global namespace in which the given function was defined.
+pub fn namespace<'py>(
+    function: &pyo3::Bound<'py, pyo3::types::PyAny>,
+) -> Option<pyo3::Bound<'py, pyo3::types::PyDict>> {
+    let py = function.py();
+    let unwrap = py
+        .import_bound(pyo3::intern!(py, "inspect"))
+        .and_then(|inspect| inspect.getattr(pyo3::intern!(py, "unwrap")))
+        .ok()?;
+    let partial = py
+        .import_bound(pyo3::intern!(py, "functools"))
+        .and_then(|functools| functools.getattr(pyo3::intern!(py, "partial")))
+        .ok()?;
+
+    let mut function = unwrap.call1((function,)).ok()?;
+    while function.is_instance(&partial).ok()? {
+        let inner_function = function.getattr(pyo3::intern!(py, "func")).ok()?;
+        function = unwrap.call1((inner_function,)).ok()?;
+    }
+    function
+        .getattr(pyo3::intern!(py, "__globals__"))
+        .ok()?
+        .downcast_into()
+        .ok()
+}
+
+/// Find a type by its name in the given namespace.
+pub fn find_type<'py>(
+    namespace: &pyo3::Bound<'py, pyo3::types::PyDict>,
+    name: &str,
+) -> Option<pyo3::Bound<'py, pyo3::types::PyType>> {
+    // Ignore type parameters
+    let mut segments = name.split('[').next()?.split('.');
+    let first = namespace.get_item(segments.next()?).ok()??;
+    segments
+        .try_fold(first, |obj, segment| obj.getattr(segment).ok())?
+        .downcast_into()
+        .ok()
+}
+
 /// Extract the docstring of the given object.
 /// Only non-empty strings are considered to be docstrings.
 pub fn docstring(obj: &pyo3::Bound<pyo3::types::PyAny>) -> Option<String> {
-- 
2.43.0


From 8abcaf457f65d0550e5316cb7a05eddb3a14cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 55/56] fix: Only resolve forward references relative to the
 namespace of the function

---
 pyo3_bindgen_engine/src/syntax/function.rs |  6 +--
 pyo3_bindgen_engine/src/syntax/property.rs |  7 +--
 pyo3_bindgen_engine/src/typing/from_py.rs  | 10 ++--
 pyo3_bindgen_engine/src/typing/mod.rs      | 63 +++++++++++++++-------
 4 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index abfabf9..35345d0 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -87,11 +87,7 @@ impl Function {
             // Names in the annotations refer to the module in which the function is defined
             let namespace = crate::utils::introspection::namespace(function);
             let parse_annotation = |annotation: pyo3::Bound<pyo3::PyAny>| {
-                let annotation = Type::try_from(annotation)?;
-                Result::Ok(match &namespace {
-                    Some(namespace) => annotation.resolve(namespace),
-                    None => annotation,
-                })
+                Result::Ok(Type::try_from(annotation)?.resolve(namespace.as_ref()))
             };
 
             // Extract the parameters of the function
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 68d72fb..7f8b9c5 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -49,11 +49,8 @@ impl Property {
                 // Names in the annotations refer to the module in which the function is defined
                 let parse_annotation =
                     |function: &pyo3::Bound<pyo3::PyAny>, annotation: pyo3::Bound<pyo3::PyAny>| {
-                        let annotation = Type::try_from(annotation)?;
-                        Result::Ok(match crate::utils::introspection::namespace(function) {
-                            Some(namespace) => annotation.resolve(&namespace),
-                            None => annotation,
-                        })
+                        let namespace = crate::utils::introspection::namespace(function);
+                        Result::Ok(Type::try_from(annotation)?.resolve(namespace.as_ref()))
                     };
                 let signature = py
                     .import_bound(pyo3::intern!(py, "inspect"))?
diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index c3f58b5..228a3aa 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -28,12 +28,13 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
             // Handle everything else as string
             _ => {
                 if value.is_instance_of::<pyo3::types::PyString>() {
-                    Self::from_str(
+                    Ok(Self::from_str(
                         value
                             .downcast::<pyo3::types::PyString>()
                             .unwrap()
                             .to_str()?,
-                    )
+                    )?
+                    .into_forward_reference())
                 } else {
                     Self::from_str(&value.to_string())
                 }
@@ -207,7 +208,7 @@ impl Type {
             .and_then(|forward_reference| forward_reference.extract::<String>())
         {
             // Handle forward references as the string they refer to
-            Type::from_str(&forward_reference)
+            Ok(Type::from_str(&forward_reference)?.into_forward_reference())
         } else {
             // Handle everything else as string
             Type::from_str(&value.to_string())
@@ -471,10 +472,11 @@ impl std::str::FromStr for Type {
                     && reference.ends_with('\'')
                     && !reference[1..reference.len() - 1].contains('\'') =>
             {
-                Self::from_str(&reference[1..reference.len() - 1])?
+                Self::from_str(&reference[1..reference.len() - 1])?.into_forward_reference()
             }
             reference if reference.starts_with("ForwardRef('") && reference.ends_with("')") => {
                 Self::from_str(&reference["ForwardRef('".len()..reference.len() - "')".len()])?
+                    .into_forward_reference()
             }
 
             // Other types, that might be known (custom types of modules)
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index e569b24..4d89ba4 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -72,40 +72,63 @@ pub enum Type {
 }
 
 impl Type {
-    /// Resolve all names of types (e.g. forward references) within the namespace in which they are used.
-    pub fn resolve(self, namespace: &pyo3::Bound<pyo3::types::PyDict>) -> Self {
-        let resolve_box = |typ: Box<Self>| Box::new(typ.resolve(namespace));
-        let resolve_all = |types: Vec<Self>| {
+    /// Mark all names of other types as forward references (with quotes), i.e. names that are not fully qualified.
+    pub fn into_forward_reference(self) -> Self {
+        self.map_other(&|name| {
+            Self::Other(if name.starts_with('\'') {
+                name
+            } else {
+                format!("'{name}'")
+            })
+        })
+    }
+
+    /// Resolve all forward references within the namespace in which they are used.
+    pub fn resolve(self, namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>) -> Self {
+        self.map_other(&|name| {
+            let Some(reference) = name
+                .strip_prefix('\'')
+                .and_then(|name| name.strip_suffix('\''))
+            else {
+                return Self::Other(name);
+            };
+            namespace
+                .and_then(|namespace| crate::utils::introspection::find_type(namespace, reference))
+                .and_then(|typ| Self::try_from(typ).ok())
+                .unwrap_or_else(|| Self::Other(reference.to_owned()))
+        })
+    }
+
+    /// Replace all other types, including those that are nested.
+    fn map_other(self, map: &impl Fn(String) -> Self) -> Self {
+        let map_box = |typ: Box<Self>| Box::new(typ.map_other(map));
+        let map_all = |types: Vec<Self>| {
             types
                 .into_iter()
-                .map(|typ| typ.resolve(namespace))
+                .map(|typ| typ.map_other(map))
                 .collect::<Vec<_>>()
         };
         match self {
-            Self::Other(name) => {
-                crate::utils::introspection::find_type(namespace, &name)
-                    .and_then(|typ| Self::try_from(typ).ok())
-                    .unwrap_or(Self::Other(name))
-            }
-            Self::Optional(inner_type) => Self::Optional(resolve_box(inner_type)),
-            Self::Union(inner_types) => Self::Union(resolve_all(inner_types)),
+            Self::Other(name) => map(name),
+            Self::Optional(inner_type) => Self::Optional(map_box(inner_type)),
+            Self::Union(inner_types) => Self::Union(map_all(inner_types)),
             Self::PyDict {
                 key_type,
                 value_type,
             } => Self::PyDict {
-                key_type: resolve_box(key_type),
-                value_type: resolve_box(value_type),
+                key_type: map_box(key_type),
+                value_type: map_box(value_type),
             },
-            Self::PyFrozenSet(inner_type) => Self::PyFrozenSet(resolve_box(inner_type)),
-            Self::PyList(inner_type) => Self::PyList(resolve_box(inner_type)),
-            Self::PySet(inner_type) => Self::PySet(resolve_box(inner_type)),
-            Self::PyTuple(inner_types) => Self::PyTuple(resolve_all(inner_types)),
+            Self::PyFrozenSet(inner_type) => Self::PyFrozenSet(map_box(inner_type)),
+            Self::PyList(inner_type) => Self::PyList(map_box(inner_type)),
+            Self::PySet(inner_type) => Self::PySet(map_box(inner_type)),
+            Self::PyTuple(inner_types) => Self::PyTuple(map_all(inner_types)),
             Self::PyFunction {
                 param_types,
                 return_annotation,
             } => Self::PyFunction {
-                param_types: resolve_all(param_types),
-                return_annotation: resolve_box(return_annotation),
+                param_types: map_all(param_types),
+                return_annotation: map_box(return_annotation),
             },
             other => other,
         }
-- 
2.43.0


From 29a268995f2fdf5e6502b8b1549659cc0b275167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 56/56] fix: Do not copy variable keyword arguments twice

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 35345d0..87d4c44 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -582,7 +582,7 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
+                        let __internal__kwargs = #var_keyword_args_ident;
                         #(
                             ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
                         )*
-- 
2.43.0

