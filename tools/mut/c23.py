UT="src/bindgen/utilities.rs"; PA="src/bindgen/parser.rs"; LI="src/bindgen/library.rs"; CG="src/bindgen/config.rs"; CD="src/bindgen/cdecl.rs"; GL="src/bindgen/ir/global.rs"; FN="src/bindgen/ir/function.rs"
LB="src/bindgen/language_backend/mod.rs"; BI="src/bindgen/bindings.rs"; AN="src/bindgen/ir/annotation.rs"; IT="src/bindgen/ir/item.rs"; CO="src/bindgen/ir/constant.rs"; DE="src/bindgen/dependencies.rs"
M=[
("static-unsafe","C23","bad",[(UT,"""impl SynItemHelpers for syn::ItemStatic {
    fn exported_name(&self) -> Option<String> {
        self.attrs
            .attr_name_value_lookup("export_name")
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
""","""impl SynItemHelpers for syn::ItemStatic {
    fn exported_name(&self) -> Option<String> {
        self.attrs
            .attr_name_value_lookup("export_name")
""")]),
("unsafe-nm","C23","bad",[(UT,"""                if self.is_no_mangle() {
                    Some(self.ident.unraw().to_string())""","""                if self.has_attr_word("no_mangle") {
                    Some(self.ident.unraw().to_string())""")]),
("prec","C23","bad",[(UT,"""        self.attrs
            .attr_name_value_lookup("export_name")
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
            .or_else(|| {
                self.is_no_mangle()
                    .then(|| self.sig.ident.unraw().to_string())
            })""","""        self.is_no_mangle()
            .then(|| self.sig.ident.unraw().to_string())
            .or_else(|| self.attrs.attr_name_value_lookup("export_name"))
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))""")]),
("abi-sys","C23","bad",[(UT,"""matches!(lit_string.value().as_str(), "C" | "C-unwind")""","""matches!(lit_string.value().as_str(), "C" | "C-unwind" | "system")""")]),
("abi-unwind","C23","bad",[(UT,"""matches!(lit_string.value().as_str(), "C" | "C-unwind")""","""lit_string.value() == "C" """)]),
("omitted","C23","bad",[(UT,"""        self.as_ref().is_some_and(|abi| abi.is_omitted())""","""        self.as_ref().is_none_or(|abi| abi.is_omitted())""")]),
("name-ident","C23","bad",[(PA,"""            (true, Some(exported_name)) => {
                let path = Path::new(exported_name);""","""            (true, Some(_exported_name)) => {
                let path = Path::new(sig.ident.unraw().to_string());""")]),
("static-ident","C23","bad",[(PA,"""        if let Some(exported_name) = item.exported_name() {
            let path = Path::new(exported_name);""","""        if item.exported_name().is_some() {
            let path = Path::new(item.ident.unraw().to_string());""")]),
("method-skip","C23","ok",[(PA,"""                                syn::ImplItem::Fn(method) if !method.should_skip_parsing() => {
                                    Some(method)
                                }
                                _ => None,""","""                                syn::ImplItem::Fn(method) => {
                                    (!method.should_skip_parsing()).then_some(method)
                                }
                                _ => None,""")]),
("method-skip2","C23","bad",[(PA,"""                                syn::ImplItem::Fn(method) if !method.should_skip_parsing() => {""","""                                syn::ImplItem::Fn(method) => {""")]),
("foreign-skip","C23","bad",[(PA,"""                if function.attrs.should_skip_parsing() {
                    continue;
                }
""","")]),
("foreign-top","C23","bad",[(PA,"""                if !config
                    .parse
                    .should_generate_top_level_item(crate_name, binding_crate_name)
                {
                    info!(
                        "Skip {}::{} - (fn's outside of the binding crate are not used).",
                        crate_name, function.sig.ident
                    );
                    continue;
                }
""","""                let _ = (config, binding_crate_name);
""")]),
("const-pub","C23","bad",[(PA,"""        if let syn::Visibility::Public(_) = item.vis {
        } else {
            warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
            return;
        }
""","""        if let syn::Visibility::Inherited = item.vis {
            warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
            return;
        }
""")]),
("ignore-trim","C23","bad",[(UT,"""content.value().trim() == "cbindgen:ignore\"""","""content.value().trim() == "cbindgen:skip\"""")]),
("cfgtest","C23","bad",[(UT,"""                if path.is_ident("test") {
                    return true;
                }
            }
            false""","""                if path.is_ident("test") {
                    return false;
                }
            }
            false""")]),
("sym-rename","C23","bad",[(GL,"""    fn rename_for_config(&mut self, config: &Config) {
""","""    fn rename_for_config(&mut self, config: &Config) {
        config.export.rename(&mut self.export_name);
""")]),
("sym-written","C23","bad",[(CD,"Some(f.path().name()), config)","Some(&f.path().name().to_lowercase()), config)")]),
("r-match","C23","ok",[(PA,"""        match (is_extern_c, exported_name) {
            (true, Some(exported_name)) => {
                let path = Path::new(exported_name);
                match Function::load(path, self_type, sig, false, attrs, mod_cfg) {
                    Ok(func) => {
                        info!("Take {}.", loggable_item_name());
                        self.functions.push(func);
                    }
                    Err(msg) => {
                        error!("Cannot use fn {} ({}).", loggable_item_name(), msg);
                    }
                }
            }
            (true, None) => {
                warn!(
                    "Skipping {} - (not `no_mangle`, and has no `export_name` attribute)",
                    loggable_item_name()
                );
            }
            (false, Some(_exported_name)) => {
                warn!("Skipping {} - (not `extern \\"C\\"`)", loggable_item_name());
            }
            (false, None) => {}
        }
""","""        let Some(exported_name) = exported_name else {
            if is_extern_c {
                warn!(
                    "Skipping {} - (not `no_mangle`, and has no `export_name` attribute)",
                    loggable_item_name()
                );
            }
            return;
        };
        if !is_extern_c {
            warn!("Skipping {} - (not `extern \\"C\\"`)", loggable_item_name());
            return;
        }
        let path = Path::new(exported_name);
        let loaded = Function::load(path, self_type, sig, false, attrs, mod_cfg);
        match loaded {
            Ok(func) => {
                info!("Take {}.", loggable_item_name());
                self.functions.push(func);
            }
            Err(msg) => error!("Cannot use fn {} ({}).", loggable_item_name(), msg),
        }
""")]),
("r-lookup","C23","ok",[(UT,"""        self.attrs()
            .iter()
            .filter_map(|attr| {
                if let syn::Meta::NameValue(syn::MetaNameValue {
                    path,
                    value:
                        syn::Expr::Lit(syn::ExprLit {
                            lit: syn::Lit::Str(lit),
                            ..
                        }),
                    ..
                }) = &attr.meta
                {
                    if path.is_ident(name) {
                        return Some(lit.value());
                    }
                }
                None
            })
            .next()
""","""        for attr in self.attrs() {
            let syn::Meta::NameValue(nv) = &attr.meta else {
                continue;
            };
            if !nv.path.is_ident(name) {
                continue;
            }
            if let syn::Expr::Lit(syn::ExprLit {
                lit: syn::Lit::Str(lit),
                ..
            }) = &nv.value
            {
                return Some(lit.value());
            }
        }
        None
""")]),
("r-skip","C23","ok",[(UT,"""        for attr in self.attrs() {
            if is_skip_item_attr(&attr.meta) {
                return true;
            }
        }

        false
""","""        self.attrs().iter().any(|attr| is_skip_item_attr(&attr.meta))
"""),(UT,"""            for token in tokens {
                let Ok(path) = syn::parse2::<syn::Path>(token) else {
                    // we are looking for `test`, that should always happen only as path
                    return false;
                };

                if path.is_ident("test") {
                    return true;
                }
            }
            false""","""            tokens
                .into_iter()
                .map_while(|token| syn::parse2::<syn::Path>(token).ok())
                .any(|path| path.is_ident("test"))""")]),
("r-impl","C23","ok",[(PA,"""                            for method in item_impl.items.iter().filter_map(|item| match item {
                                syn::ImplItem::Fn(method) if !method.should_skip_parsing() => {
                                    Some(method)
                                }
                                _ => None,
                            }) {
                                self""","""                            for item in &item_impl.items {
                                let syn::ImplItem::Fn(method) = item else { continue };
                                if method.should_skip_parsing() {
                                    continue;
                                }
                                self""")]),
("r-static","C23","ok",[(PA,"""        if let Some(exported_name) = item.exported_name() {
            let path = Path::new(exported_name);
            match""","""        if let Some(path) = item.exported_name().map(Path::new) {
            match""")]),
("r-expname","C23","ok",[(UT,"""        self.attrs
            .attr_name_value_lookup("export_name")
            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
            .or_else(|| {
                self.is_no_mangle()
                    .then(|| self.sig.ident.unraw().to_string())
            })""","""        explicit_symbol(&self.attrs).or_else(|| {
            self.is_no_mangle()
                .then(|| self.sig.ident.unraw().to_string())
        })"""),(UT,"""impl SynItemHelpers for syn::ItemFn {""","""fn explicit_symbol(attrs: &[syn::Attribute]) -> Option<String> {
    if let Some(name) = attrs.attr_name_value_lookup("export_name") {
        return Some(name);
    }
    attrs.unsafe_attr_name_value_lookup("export_name")
}

impl SynItemHelpers for syn::ItemFn {""")]),
]
