SEEDS=[
dict(id="s25-features-join", prop="C27", needs="three or more features configured for expansion",
  breaks="the first two features are passed to cargo as one word",
  edits=[("src/bindgen/cargo/cargo_expand.rs", """            if index != 0 {
                features_str.push(' ');
            }
            features_str.push_str(feature);""", """            features_str.push_str(feature);
            if index != 0 && index + 1 != features.len() {
                features_str.push(' ');
            }""")],
  files={"crate/src/lib.rs": "#[no_mangle] pub extern \"C\" fn f() {}\n",
         "crate/Cargo.toml": "[package]\nname = \"demo\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[features]\nf1 = []\nf2 = []\nf3 = []\n[workspace]\n",
         "crate/cbindgen.toml": "language = \"C\"\n[parse.expand]\ncrates = [\"demo\"]\nfeatures = [\"f1\", \"f2\", \"f3\"]\n",
         "cargo.sh": "#!/bin/bash\nif [ \"$1\" = rustc ]; then printf '%s\\n' \"$@\" > \"$DEMO_LOG\"; echo 'pub extern \"C\" fn f() {}'; exit 0; fi\nexec \"$REAL_CARGO\" \"$@\"\n"},
  demo='''
cp -r "$here/crate" "$d/crate"; cp "$here/cargo.sh" "$d/cargo.sh"; chmod +x "$d/cargo.sh"
export REAL_CARGO=$(command -v cargo) DEMO_LOG="$d/log" CARGO="$d/cargo.sh" CARGO_NET_OFFLINE=true
(cd "$d/crate" && $cb -q -o "$d/o.h" . >/dev/null 2>&1)
[ -s "$d/log" ] || fail "no expansion was run"
feat=$(grep -A1 -x -- --features "$d/log" | tail -1)
[ "$(tr ' ,' '\\n\\n' <<<"$feat" | sort | xargs)" = "f1 f2 f3" ] || fail "the features are given as '$feat'"
'''),
]
SEEDS += [
dict(id="s26-mangle-unknown-key", prop="C16", needs="a misspelt key in the [export.mangle] table",
  breaks="the unknown key is accepted and ignored instead of being reported",
  edits=[("src/bindgen/config.rs", """#[serde(deny_unknown_fields)]
#[serde(default)]
pub struct MangleConfig""", """#[serde(default)]
pub struct MangleConfig""")],
  files={"a.rs": "#[repr(C)] pub struct G<T>{pub a:T}\n#[no_mangle] pub extern \"C\" fn f(a:G<i32>) {}\n", "c.toml": "language = \"C\"\n[export.mangle]\nremove_underscore = true\n", "ok.toml": "language = \"C\"\n[export.mangle]\nremove_underscores = true\n"},
  demo='''
$cb -q -c "$here/ok.toml" "$here/a.rs" -o "$d/o.h" || fail "a correct configuration is refused"
if $cb -q -c "$here/c.toml" "$here/a.rs" -o "$d/p.h" >/dev/null 2>&1; then fail "an unknown key is accepted"; fi
exit 0
'''),
]
SEEDS += [
dict(id="s27-union-rename-precedence", prop="C17", needs="a union with a rename-all annotation while structure.rename_fields is configured",
  breaks="the configured rule wins over the union's annotation",
  edits=[("src/bindgen/ir/union.rs", "        let rules = rules.as_ref().unwrap_or(&config.structure.rename_fields);", "        let rules = match config.structure.rename_fields.not_none() {\n            Some(r) => r,\n            None => rules.as_ref().unwrap_or(&config.structure.rename_fields),\n        };")],
  files={"a.rs": "/// cbindgen:rename-all=UpperCase\n#[repr(C)] pub union U { pub one_two: i32 }\n#[no_mangle] pub extern \"C\" fn f(a: U) {}\n", "c.toml": "language = \"C\"\n[struct]\nrename_fields = \"CamelCase\"\n"},
  demo='''
$cb -q -c "$here/c.toml" "$here/a.rs" -o "$d/o.h"; grep -q "ONETWO\\|ONE_TWO" "$d/o.h" || fail "the annotation does not win: $(grep int32 "$d/o.h")"
'''),
dict(id="s28-postfix-precedence", prop="C17", needs="a function with an empty postfix annotation while fn.postfix is configured",
  breaks="the function keeps the configured postfix although its annotation removes it",
  edits=[("src/bindgen/config.rs", """        if let Some(x) = annotations.atom("postfix") {
            return x;
        }
        self.postfix.clone()""", """        annotations
            .atom("postfix")
            .flatten()
            .or_else(|| self.postfix.clone())""")],
  files={"a.rs": "/// cbindgen:postfix=\n#[no_mangle] pub extern \"C\" fn f(a: i32) {}\n#[no_mangle] pub extern \"C\" fn g(a: i32) {}\n", "c.toml": "language = \"C\"\n[fn]\npostfix = \"POST\"\n"},
  demo='''
$cb -q -c "$here/c.toml" "$here/a.rs" -o "$d/o.h"
[ "$(grep -c POST "$d/o.h")" = 1 ] || fail "the annotation does not override the postfix: $(grep -n POST "$d/o.h")"
'''),
]
