L = "src/bindgen/library.rs"; I = "src/bindgen/ir/"
SEEDS = [
dict(id="s01-fnptr-arg-deps", prop="C02", needs="a type referenced only as the pointee of an argument of a function pointer that returns a non-primitive type",
  breaks="types that only occur in the argument list of such a callback are not emitted",
  edits=[(I+"ty.rs", """            Type::FuncPtr {
                ref ret, ref args, ..
            } => {
                ret.add_dependencies_ignoring_generics(generic_params, library, out);
                for (_, ref arg) in args {
                    arg.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }""", """            Type::FuncPtr {
                ref ret, ref args, ..
            } => {
                ret.add_dependencies_ignoring_generics(generic_params, library, out);
                if let Type::Primitive(_) = **ret {
                    for (_, ref arg) in args {
                        arg.add_dependencies_ignoring_generics(generic_params, library, out);
                    }
                }
            }""")],
  files={"input.rs": """#[repr(C)] pub struct Payload { x: i32 }
#[repr(C)] pub struct Answer { y: i32 }
#[no_mangle] pub extern "C" fn register(cb: extern "C" fn(p: *const Payload) -> Answer) {}
"""},
  demo='''
out=$($cb -q -l c "$here/input.rs") || fail "cbindgen exited $?"
grep -q "} Payload;" <<<"$out" || fail "Payload is used but not declared"
'''),
dict(id="s02-rename-array-len", prop="C03", needs="an array member whose length is a named constant, with a prefix configured, inside a union",
  breaks="array lengths naming a constant keep the unprefixed name",
  edits=[(I+"ty.rs", """            Type::Array(ref mut ty, ref mut len) => {
                ty.rename_for_config(config, generic_params);
                len.rename_for_config(config, generic_params);
            }""", """            Type::Array(ref mut ty, ref mut len) => {
                ty.rename_for_config(config, generic_params);
                if let Type::Primitive(_) = **ty {
                    len.rename_for_config(config, generic_params);
                }
            }""")],
  files={"input.rs": """pub const LEN: usize = 4;
#[repr(C)] pub struct Cell { x: i32 }
#[repr(C)] pub union Grid { a: [Cell; LEN], b: u8 }
#[no_mangle] pub extern "C" fn f(g: *const Grid) {}
""", "c.toml": '[export]\nprefix = "My"\n'},
  demo='''
out=$($cb -q -l c -c "$here/c.toml" "$here/input.rs") || fail "cbindgen exited $?"
grep -q "a\\[MyLEN\\]" <<<"$out" || fail "array length not renamed: $(grep 'a\\[' <<<"$out")"
'''),
dict(id="s03-mangle-fnptr-ret", prop="C04", needs="a generic instance used as the return type of a function pointer, C output",
  breaks="the use in the callback's return type is left unmangled",
  edits=[(I+"ty.rs", """            Type::FuncPtr {
                ref mut ret,
                ref mut args,
                ..
            } => {
                ret.mangle_paths(monomorphs);
                for (_, ref mut arg) in args {
                    arg.mangle_paths(monomorphs);
                }
            }""", """            Type::FuncPtr {
                ref mut ret,
                ref mut args,
                ..
            } => {
                for (_, ref mut arg) in args.iter_mut() {
                    arg.mangle_paths(monomorphs);
                }
                if !args.is_empty() {
                    ret.mangle_paths(monomorphs);
                }
            }""")],
  files={"input.rs": """#[repr(C)] pub struct Pair<T> { a: T, b: T }
#[no_mangle] pub extern "C" fn f(g: extern "C" fn() -> Pair<i32>) {}
"""},
  demo='''
out=$($cb -q -l c "$here/input.rs") || fail "cbindgen exited $?"
grep -q "Pair<" <<<"$out" && fail "unmangled reference"
grep -q "struct Pair_i32 (\\*g)" <<<"$out" || fail "callback not declared with the instance"
'''),
dict(id="s04-simplify-static", prop="C06", needs="a static whose type is an optional function pointer inside an array",
  breaks="arrays of wrapper types are not simplified",
  edits=[(I+"ty.rs", """        self.visit_types(|ty| ty.simplify_standard_types(config));
""", """        if !matches!(*self, Type::Array(..)) {
            self.visit_types(|ty| ty.simplify_standard_types(config));
        }
""")],
  files={"input.rs": """#[no_mangle] pub static HANDLERS: [Option<extern "C" fn(i32)>; 3] = [None; 3];
"""},
  demo='''
out=$($cb -q -l c "$here/input.rs") || fail "cbindgen exited $?"
grep -q "Option" <<<"$out" && fail "Option left in the output"
true
'''),
dict(id="s05-tag-union-opaque", prop="C07", needs="a static or struct field pointing to an opaque type, C output with tag style only",
  breaks="references to opaque types lose their struct keyword",
  edits=[(I+"opaque.rs", """    fn collect_declaration_types(&self, resolver: &mut DeclarationTypeResolver) {
        resolver.add_struct(&self.path);
    }""", """    fn collect_declaration_types(&self, resolver: &mut DeclarationTypeResolver) {
        if self.documentation.doc_comment.is_empty() {
            resolver.add_struct(&self.path);
        }
    }""")],
  files={"input.rs": """/// documented
pub struct Opaque { x: String }
#[no_mangle] pub extern "C" fn f(g: *const Opaque) {}
""", "c.toml": 'language = "C"\nstyle = "tag"\n'},
  demo='''
out=$($cb -q -c "$here/c.toml" "$here/input.rs") || fail "cbindgen exited $?"
grep -q "f(const struct Opaque" <<<"$out" || fail "missing struct keyword"
'''),
]
