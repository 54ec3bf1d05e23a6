L = "src/bindgen/library.rs"; I = "src/bindgen/ir/"; B = "src/bindgen/"
SEEDS = [
dict(id="s06-symfile-set", prop="C01", needs="a symbol file requested for a crate with several exported functions",
  breaks="the symbol file lists the symbols in the iteration order of a randomly seeded hash set",
  edits=[(B+"bindings.rs", """        for symbol in self.dynamic_symbols_names() {
            writeln!""", """        // A symbol bound several times (under different conditions) is listed once.
        let symbols: std::collections::HashSet<&str> = self.dynamic_symbols_names().collect();
        for symbol in symbols {
            writeln!""")],
  files={"input.rs": "".join(f'#[no_mangle] pub extern "C" fn f{i}() {{}}\n' for i in range(24))},
  demo='''
for i in 1 2 3 4; do
  $cb -q -l c "$here/input.rs" -o "$d/o.h" --symfile "$d/s$i" || fail "cbindgen exited $?"
  cmp -s "$d/s1" "$d/s$i" || fail "two runs wrote different symbol files"
done
'''),
dict(id="s07-union-field-cfg", prop="C05", needs="a generic union with a conditional field, instantiated in C",
  breaks="the concrete copy of the union loses the conditions of its fields",
  edits=[(I+"union.rs", """                    ty: field.ty.specialize(&mappings),
                    cfg: field.cfg.clone(),""", """                    ty: field.ty.specialize(&mappings),
                    cfg: field.cfg.clone().filter(|_| !field.ty.is_generic_dependent(&mappings)),"""),
    (I+"ty.rs", """    pub fn get_root_path(&self) -> Option<Path> {""", """    /// Whether this type is one of the generic parameters being replaced.
    pub fn is_generic_dependent(&self, mappings: &[(&Path, &GenericArgument)]) -> bool {
        self.get_root_path()
            .is_some_and(|path| mappings.iter().any(|(param, _)| **param == path))
    }

    pub fn get_root_path(&self) -> Option<Path> {""")],
  files={"input.rs": """#[repr(C)] pub union U<T: Copy> { a: u32, #[cfg(feature = "wide")] b: T }
#[no_mangle] pub extern "C" fn take(u: U<u64>) {}
""", "c.toml": """[defines]
"feature = wide" = "WIDE"
"""},
  demo='''
out=$($cb -q -l c -c "$here/c.toml" "$here/input.rs") || fail "cbindgen exited $?"
grep -q "defined(WIDE)" <<<"$out" || fail "the field lost its condition"
'''),
dict(id="s08-dep-cfg-leak", prop="C08", needs="a crate with a target-specific dependency that is already parsed or excluded, followed by another dependency",
  breaks="the condition of a skipped dependency stays on the stack and is attached to the items of later dependencies",
  edits=[(B+"parser.rs", """            if !self.should_parse_dependency(&dep_pkg.name) {
                continue;
            }

            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }
""", """            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            if !self.should_parse_dependency(&dep_pkg.name) {
                continue;
            }
""")],
  files={},
  demo='''
mk() { mkdir -p "$d/$1/src" || exit 2; printf '[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n[lib]\\npath = "src/lib.rs"\\n%s\\n' "$1" "$2" > "$d/$1/Cargo.toml"; printf '%s\\n' "$3" > "$d/$1/src/lib.rs"; }
mk alpha "" '#[repr(C)] pub struct Alpha { x: i32 }'
mk beta "" '#[repr(C)] pub struct Beta { x: i32 }'
mk top "[dependencies]
beta = { path = \\"../beta\\" }
[target.'cfg(windows)'.dependencies]
alpha = { path = \\"../alpha\\" }" '#[no_mangle] pub extern "C" fn f(b: beta::Beta) {}'
printf 'language = "C"\\n[parse]\\nparse_deps = true\\nexclude = ["alpha"]\\n[defines]\\n"windows" = "WIN"\\n' > "$d/top/cbindgen.toml"
cd "$d/top" || exit 2
out=$("$cb" -q --config cbindgen.toml . 2>"$d/err") || { cat "$d/err"; fail "cbindgen exited"; }
grep -q "} Beta;" <<<"$out" || fail "Beta missing"
grep -q "WIN" <<<"$out" && fail "Beta carries the condition of another dependency"
exit 0
'''),
dict(id="s09-variant-def-cond", prop="C09", needs="C output without documentation of a tagged enum with a conditional struct-like variant",
  breaks="the definition of the variant's body is written outside of the #if of the variant",
  edits=[(I+"enumeration.rs", """                if config.language != Language::Cython {
                    condition.write_before(config, out);
                }
                language_backend.write_struct(out, body);
                if config.language != Language::Cython {
                    condition.write_after(config, out);
                }""", """                // The comment of the variant stays with its directive.
                let guard = config.language != Language::Cython && config.documentation;
                if guard {
                    condition.write_before(config, out);
                }
                language_backend.write_struct(out, body);
                if guard {
                    condition.write_after(config, out);
                }""")],
  files={"input.rs": """#[repr(C)] pub enum E { A, #[cfg(windows)] B { x: u8, y: u8 } }
#[no_mangle] pub extern "C" fn f(e: E) {}
""", "c.toml": """documentation = false
[defines]
"windows" = "WIN"
"""},
  demo='''
$cb -q -l c -c "$here/c.toml" "$here/input.rs" > "$d/o.h" || fail "cbindgen exited $?"
gcc -fsyntax-only -x c "$d/o.h" || fail "header does not compile"
gcc -E -P -x c "$d/o.h" | grep -q B_Body && fail "B_Body is defined although the condition is off"
exit 0
'''),
dict(id="s10-namespace-close", prop="C10", needs="both `namespace` and `namespaces` configured for C++",
  breaks="the single outer namespace is opened but not closed when nested namespaces are configured too",
  edits=[(B+"language_backend/clike.rs", """                if let Some(ref namespace) = self.config.namespace {
                    ret.push(&**namespace);
                }
                if let""", """                if let Some(ref namespace) = self.config.namespace {
                    if open || self.config.namespaces.is_none() {
                        ret.push(&**namespace);
                    }
                }
                if let""")],
  files={"input.rs": '#[no_mangle] pub extern "C" fn f() {}\n', "c.toml": 'namespace = "a"\nnamespaces = ["b", "c"]\n'},
  demo='''
$cb -q -l c++ -c "$here/c.toml" "$here/input.rs" > "$d/o.h" || fail "cbindgen exited $?"
g++ -fsyntax-only -x c++ "$d/o.h" || fail "unbalanced namespaces"
'''),
dict(id="s11-repr-unknown", prop="C12", needs="a representation attribute with a word the tool does not know after a known one",
  breaks="a type whose layout is not the C one (here a vector type) is given a definition",
  edits=[(I+"repr.rs", """                    None => return Err(format!("Unsupported #[repr({path})].")),""", """                    // The style is known already, hints do not change it.
                    None if path == "simd" && repr.style == ReprStyle::C => continue,
                    None => return Err(format!("Unsupported #[repr({path})].")),""")],
  files={"input.rs": """#[repr(C, simd)] pub struct V { a: f32, b: f32, c: f32, d: f32 }
#[no_mangle] pub extern "C" fn f(e: *const V) {}
"""},
  demo='''
out=$($cb -q -l c "$here/input.rs") || fail "cbindgen exited $?"
grep -q "typedef struct V V;" <<<"$out" || fail "V is not opaque"
'''),
dict(id="s12-unreadable-mod", prop="C13", needs="a source file that is not valid UTF-8",
  breaks="a module that cannot be read is taken to be empty; the run succeeds",
  edits=[(B+"parser.rs", """                f.read_to_string(&mut s)
                    .map_err(|_| Error::ParseCannotOpenFile {
                        crate_name: pkg.name.clone(),
                        src_path: mod_path.to_str().unwrap().to_owned(),
                    })?;
""", """                f.read_to_string(&mut s).unwrap_or_default();
""")],
  files={},
  demo='''
printf '#[no_mangle] pub extern "C" fn f() {}\\n// \\xff\\xfe\\n' > "$d/a.rs"
$cb -q -l c "$d/a.rs" >"$d/o" 2>&1 && fail "an unreadable source is accepted"
exit 0
'''),
dict(id="s13-verify-trailing", prop="C14", needs="an output file that differs from the bindings only in trailing blank space",
  breaks="a changed output file is reported as up to date and not rewritten",
  edits=[(B+"bindings.rs", """        if old_file_contents != new_file_contents {""", """        if old_file_contents.trim_ascii_end() != new_file_contents.trim_ascii_end() {""")],
  files={"input.rs": '#[no_mangle] pub extern "C" fn f() {}\n'},
  demo='''
$cb -q -l c "$here/input.rs" -o "$d/o.h" || fail "cbindgen exited $?"
$cb -q -l c "$here/input.rs" --verify -o "$d/o.h" || fail "an identical file is reported as changed"
printf '\\n\\n' >> "$d/o.h"
$cb -q -l c "$here/input.rs" --verify -o "$d/o.h" && fail "a changed file passes the verification"
exit 0
'''),
dict(id="s14-noop-symfile", prop="C15", needs="a build script using the library while the tool expands macros",
  breaks="the nested run truncates the symbol file",
  edits=[(B+"bindings.rs", """        if self.noop {
            return;
        }

        if let Some(dir) = symfile_path.as_ref().parent() {
            std::fs::create_dir_all(dir).unwrap();
        }
        let mut writer = BufWriter::new(File::create(symfile_path).unwrap());
""", """        if let Some(dir) = symfile_path.as_ref().parent() {
            std::fs::create_dir_all(dir).unwrap();
        }
        let mut writer = BufWriter::new(File::create(symfile_path).unwrap());
        if self.noop {
            return;
        }

""")],
  files={"main.rs": """fn main() {
    let a: Vec<String> = std::env::args().collect();
    let b = cbindgen::Builder::new().with_src(&a[1]).with_language(cbindgen::Language::C).generate().unwrap();
    b.write_to_file(&a[2]); b.generate_symfile(&a[3]);
}
""", "input.rs": '#[no_mangle] pub extern "C" fn f() {}\n'},
  demo='''
mkdir -p "$d/p/src" || exit 2
cp "$here/main.rs" "$d/p/src/main.rs"; cp "$repo/Cargo.lock" "$d/p/Cargo.lock"
printf '[package]\\nname = "p"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ncbindgen = { path = "%s", default-features = false }\\n[workspace]\\n' "$repo" > "$d/p/Cargo.toml"
(cd "$d/p" && CARGO_TARGET_DIR="$d/t" cargo build --offline >"$d/log" 2>&1) || { cat "$d/log"; fail "the client does not build"; }
printf 'keep' > "$d/s"
_CBINDGEN_IS_RUNNING=1 "$d/t/debug/p" "$here/input.rs" "$d/o.h" "$d/s" || fail "exit $?"
[ "$(cat "$d/s")" = keep ] || fail "the nested run changed the symbol file"
[ ! -e "$d/o.h" ] || fail "the nested run wrote bindings"
'''),
dict(id="s15-lang-style", prop="C18", needs="--lang cython together with a style from the configuration file",
  breaks="the language option also replaces the configured style",
  edits=[("src/main.rs", """            config.language = bindgen::Language::from_str(lang).unwrap();
""", """            config.language = bindgen::Language::from_str(lang).unwrap();
            if config.language == bindgen::Language::Cython && config.style == bindgen::Style::Tag {
                // A plain `cdef` works for every style.
                config.style = bindgen::Style::Type;
            }
""")],
  files={"input.rs": "#[repr(C)] pub struct S { x: i32 }\n#[no_mangle] pub extern \"C\" fn f(s: S) {}\n", "c.toml": 'language = "C"\nstyle = "tag"\n'},
  demo='''
out=$($cb -q -c "$here/c.toml" --lang cython "$here/input.rs") || fail "cbindgen exited $?"
grep -q " cdef struct S" <<<"$out" || fail "the configured style is lost"
'''),
dict(id="s16-parse-include-append", prop="C19", needs="a builder whose whitelist of dependencies is given twice",
  breaks="the second list is added to the first instead of replacing it",
  edits=[(B+"builder.rs", """        self.config.parse.include =
            Some(include.iter().map(|x| String::from(x.as_ref())).collect());
""", """        self.config
            .parse
            .include
            .get_or_insert_with(Vec::new)
            .extend(include.iter().map(|x| String::from(x.as_ref())));
""")],
  files={"main.rs": """fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let mut config = cbindgen::Config::default();
    config.language = cbindgen::Language::C;
    config.parse.include = Some(vec!["beta".into()]);
    let b = cbindgen::Builder::new().with_config(config).with_crate(&dir).with_parse_deps(true).with_parse_include(&["alpha"]).generate().unwrap();
    b.write(std::io::stdout());
}
"""},
  demo='''
mk() { mkdir -p "$d/$1/src" || exit 2; printf '[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n[lib]\\npath = "src/lib.rs"\\n%s\\n' "$1" "$2" > "$d/$1/Cargo.toml"; printf '%s\\n' "$3" > "$d/$1/src/lib.rs"; }
mk alpha "" '#[no_mangle] pub extern "C" fn from_alpha() {}  #[repr(C)] pub struct Alpha { x: i32 }'
mk beta "" '#[repr(C)] pub struct Beta { x: i32 }'
mk top "[dependencies]
beta = { path = \\"../beta\\" }
alpha = { path = \\"../alpha\\" }" '#[no_mangle] pub extern "C" fn f(a: *const alpha::Alpha, b: *const beta::Beta) {}'
mkdir -p "$d/p/src" || exit 2
cp "$here/main.rs" "$d/p/src/main.rs"; cp "$repo/Cargo.lock" "$d/p/Cargo.lock"
printf '[package]\\nname = "p"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ncbindgen = { path = "%s", default-features = false }\\n[workspace]\\n' "$repo" > "$d/p/Cargo.toml"
(cd "$d/p" && CARGO_TARGET_DIR="$d/t" cargo build --offline >"$d/log" 2>&1) || { cat "$d/log"; fail "the client does not build"; }
out=$("$d/t/debug/p" "$d/top") || fail "exit $?"
grep -q "} Alpha;" <<<"$out" || fail "alpha is not parsed"
grep -q "} Beta;" <<<"$out" && fail "beta is parsed although the whitelist was set to alpha"
exit 0
'''),
dict(id="s17-rename-over", prop="C20", needs="an output path that is a symbolic link (or any rewrite of an existing file)",
  breaks="the existing output file is removed and replaced through a temporary file next to it",
  edits=[(B+"bindings.rs", """            let mut new_file = File::create(&path).unwrap();
            new_file.write_all(&new_file_contents).unwrap();
            true""", """            let temp = path.as_ref().with_extension("tmp");
            let mut new_file = File::create(&temp).unwrap();
            new_file.write_all(&new_file_contents).unwrap();
            fs::rename(&temp, &path).unwrap();
            true""")],
  files={"input.rs": '#[no_mangle] pub extern "C" fn f() {}\n'},
  demo='''
echo old > "$d/real.h"; ln -s real.h "$d/o.h"; echo mine > "$d/o.tmp"
$cb -q -l c "$here/input.rs" -o "$d/o.h" || fail "cbindgen exited $?"
[ "$(cat "$d/o.tmp" 2>/dev/null)" = mine ] || fail "another file was overwritten or removed"
[ -L "$d/o.h" ] || fail "the link was replaced"
'''),
dict(id="s18-depfile-rs-only", prop="C21", needs="a module loaded through a path attribute from a file without .rs suffix",
  breaks="included source files without the .rs suffix are missing from the dependency file",
  edits=[(B+"bindings.rs", """            .iter()
            .chain(self.config.config_path.as_ref())
            .map""", """            .iter()
            .filter(|p| p.extension().is_some_and(|e| e == "rs"))
            .chain(self.config.config_path.as_ref())
            .map""")],
  files={"a/lib.rs": '#[path = "gen.inc"] mod gen;\n', "a/gen.inc": '#[no_mangle] pub extern "C" fn f() {}\n'},
  demo='''
$cb -q -l c "$here/a/lib.rs" -o "$d/o.h" --depfile "$d/o.d" || fail "cbindgen exited $?"
grep -q "void f(void);" "$d/o.h" || fail "f missing"
grep -q "lib.rs" "$d/o.d" || fail "lib.rs missing"
grep -q "gen.inc" "$d/o.d" || fail "gen.inc was read but is not listed"
'''),
dict(id="s19-doc-newline", prop="C22", needs="CRLF line endings and a deprecated item with a multi-line note, or any place writing a raw line break",
  breaks="the footer of the include guard ends with a bare line feed",
  edits=[(B+"language_backend/clike.rs", """                write!(out, "#endif  /* {f} */");
            } else {""", """                write!(out, "#endif  /* {f} */\\n");
                return;
            } else {""")],
  files={"input.rs": '#[no_mangle] pub extern "C" fn f() {}\n', "c.toml": 'include_guard = "G_H"\nline_endings = "CRLF"\n'},
  demo='''
$cb -q -l c -c "$here/c.toml" "$here/input.rs" > "$d/o.h" || fail "cbindgen exited $?"
a=$(grep -c $'\\r$' "$d/o.h"); b=$(wc -l < "$d/o.h")
[ "$a" = "$b" ] || fail "$((b-a)) lines do not end in CRLF"
'''),
dict(id="s20-export-name-static", prop="C23", needs="a static exported with both no_mangle and export_name spelled inside unsafe()",
  breaks="such a static is declared under its Rust name instead of its symbol",
  edits=[(B+"utilities.rs", """impl SynItemHelpers for syn::ItemStatic {
    fn exported_name(&self) -> Option<String> {
        self.attrs
            .attr_name_value_lookup("export_name")
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
            .or_else(|| {
                if self.is_no_mangle() {
                    Some(self.ident.unraw().to_string())
                } else {
                    None
                }
            })""", """impl SynItemHelpers for syn::ItemStatic {
    fn exported_name(&self) -> Option<String> {
        if self.has_unsafe_attr_word("no_mangle") {
            return Some(self.ident.unraw().to_string());
        }
        self.attrs
            .attr_name_value_lookup("export_name")
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
            .or_else(|| {
                if self.has_attr_word("no_mangle") {
                    Some(self.ident.unraw().to_string())
                } else {
                    None
                }
            })""")],
  files={"input.rs": '#[unsafe(no_mangle)] #[export_name = "the_symbol"] pub static S: i32 = 1;\n'},
  demo='''
out=$($cb -q -l c "$here/input.rs") || fail "cbindgen exited $?"
grep -q "the_symbol;" <<<"$out" || fail "the static is not declared under its symbol"
'''),
dict(id="s21-exclude-union", prop="C24", needs="an excluded generic union, in C++",
  breaks="an excluded generic union is emitted all the same",
  edits=[(L, """        self.unions
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
""", """        self.unions.filter(|x| {
            x.generic_params.is_empty()
                && config.export.exclude.iter().any(|y| y == x.path().name())
        });
""")],
  files={"input.rs": "#[repr(C)] pub union Hidden<T: Copy> { x: T, y: i32 }\n#[no_mangle] pub extern \"C\" fn f(h: *const Hidden<i32>) {}\n", "c.toml": '[export]\nexclude = ["Hidden"]\n'},
  demo='''
out=$($cb -q -l c++ -c "$here/c.toml" "$here/input.rs" 2>/dev/null) || fail "cbindgen exited $?"
grep -q "union Hidden" <<<"$out" && fail "an excluded type is declared"
exit 0
'''),
dict(id="s22-intptr", prop="C25", needs="a value of type intptr_t with size types as size_t",
  breaks="intptr_t is emitted as ssize_t when the size-type option is off",
  edits=[(I+"ty.rs", """            "isize" | "intptr_t" => (IntKind::Size, true),""", """            "isize" => (IntKind::Size, true),
            "intptr_t" => (IntKind::SizeT, true),""")],
  files={"input.rs": "#[no_mangle] pub extern \"C\" fn f(h: intptr_t) {}\n"},
  demo='''
out=$($cb -q -l c "$here/input.rs" 2>/dev/null) || fail "cbindgen exited $?"
grep -q "void f(intptr_t h);" <<<"$out" || fail "intptr_t is not intptr_t"
'''),
dict(id="s23-mangle-array-len", prop="C26", needs="two instantiations that differ only in the length of an array argument",
  breaks="the length is left out of the mangled name, so that the second instantiation is lost",
  edits=[(B+"mangle.rs", """                self.push(Separator::BetweenArray);
                self.append_mangled_argument(&GenericArgument::Const(len.clone()), last);""", """                if !matches!(**ty, Type::Ptr { .. }) {
                    self.push(Separator::BetweenArray);
                    self.append_mangled_argument(&GenericArgument::Const(len.clone()), last);
                }""")],
  files={"input.rs": """#[repr(C)] pub struct G<T> { x: T }
#[no_mangle] pub extern "C" fn f(a: *const G<[*mut u8; 4]>, b: *const G<[*mut u8; 8]>) {}
"""},
  demo='''
$cb -q -l c "$here/input.rs" > "$d/o.h" 2>/dev/null || fail "cbindgen exited $?"
grep -q "x\\[4\\]" "$d/o.h" && grep -q "x\\[8\\]" "$d/o.h" || fail "two instantiations share a name"
'''),
dict(id="s24-not-any", prop="C30", needs="a negated disjunction in a condition",
  breaks="the negation of a disjunction is emitted without its parentheses, negating only the first operand",
  edits=[(I+"cfg.rs", """            Cfg::Not(ref child) => child
                .to_condition(config)
                .map(|cfg| Condition::Not(Box::new(cfg))),""", """            Cfg::Not(ref child) => child.to_condition(config).map(|cfg| match cfg {
                // Push the negation inwards.
                Condition::Any(children) => Condition::Any(
                    children
                        .into_iter()
                        .map(|c| Condition::Not(Box::new(c)))
                        .collect(),
                ),
                cfg => Condition::Not(Box::new(cfg)),
            }),""")],
  files={"input.rs": '#[cfg(not(any(windows, unix)))] #[no_mangle] pub extern "C" fn f() {}\n', "c.toml": '[defines]\n"windows" = "WIN"\n"unix" = "UNIX"\n'},
  demo='''
$cb -q -l c -c "$here/c.toml" "$here/input.rs" > "$d/o.h" || fail "cbindgen exited $?"
gcc -E -P -DWIN -x c "$d/o.h" | grep -q "void f(void)" && fail "f is declared although WIN is defined"
gcc -E -P -x c "$d/o.h" | grep -q "void f(void)" || fail "f is not declared although neither is defined"
'''),
]
