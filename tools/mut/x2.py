P="src/bindgen/parser.rs"; C="src/bindgen/ir/cfg.rs"; MG="src/bindgen/mangle.rs"; BI="src/bindgen/bindings.rs"; W="src/bindgen/writer.rs"; MA="src/main.rs"; UT="src/bindgen/utilities.rs"; CL="src/bindgen/language_backend/clike.rs"; CY="src/bindgen/language_backend/cython.rs"
M=[
("pop-depth","C08","bad",[(P,"""            if cfg.is_some() {
                self.cfg_stack.pop();
            }
        }

        Ok(())
    }
}""","""            if cfg.is_some() && (depth > 0 || item.content.is_none()) {
                self.cfg_stack.pop();
            }
        }

        Ok(())
    }
}""")]),
("push-inline","C08","bad",[(P,"""            let cfg = Cfg::load(&item.attrs);
            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            if let Some((_, ref inline_items))""","""            let cfg = if is_inline && item.content.is_some() { None } else { Cfg::load(&item.attrs) };
            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            if let Some((_, ref inline_items))""")]),
("dep-clear","C08","bad",[(P,"""            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            self.parse_crate""","""            if let Some(ref cfg) = cfg {
                self.cfg_stack.clear();
                self.cfg_stack.push(cfg.clone());
            }

            self.parse_crate""")]),
("append-all","C08","bad",[(C,"""            (Some(parent), Some(child)) => Some(Cfg::All""","""            (Some(_), Some(child @ Cfg::All(_))) => Some(child),
            (Some(parent), Some(child)) => Some(Cfg::All""")]),
("load-not","C08","bad",[(C,"""                if let Some(config) = cfg {
                    configs.push(config);""","""                if let Some(config) = cfg {
                    if configs.iter().any(|c| matches!(c, Cfg::Not(_))) && matches!(config, Cfg::Not(_)) {
                        continue;
                    }
                    configs.push(config);""")]),
("assoc-cfg","C08","bad",[(P,"""        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
        self.load_syn_assoc_consts(
            crate_name,
            impl_cfg.as_ref(),""","""        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
        self.load_syn_assoc_consts(
            crate_name,
            if item_impl.trait_.is_some() { mod_cfg } else { impl_cfg.as_ref() },""")]),
("meta-path","C08","bad",[(C,"""                    if !meta.path.is_ident("cfg") {
                        return None;
                    }
                    meta.parse_args().ok()""","""                    if !meta.path.is_ident("cfg") {
                        return None;
                    }
                    meta.parse_args().ok().filter(|c| !matches!(c, Cfg::Not(_)))""")]),
("cond-any-dup","C30","bad",[(C,"""                match conditions.len() {
                    0 => None,
                    1 =>""","""                if conditions.len() < children.len() && children.len() > 2 { return None; }
                match conditions.len() {
                    0 => None,
                    1 =>""")]),
("cond-paren2","C30","bad",[(C,"""            Condition::All(ref conditions) => {
                out.write("(");""","""            Condition::All(ref conditions) => {
                if conditions.len() > 1 && config.language != Language::Cython {
                out.write("(");
                }""")]),
("cond-notnot","C30","bad",[(C,"""                .map(|cfg| Condition::Not(Box::new(cfg))),""","""                .map(|cfg| match cfg {
                    Condition::Not(_) => cfg,
                    cfg => Condition::Not(Box::new(cfg)),
                }),""")]),
("cond-key","C30","bad",[(C,"DefineKey::Boolean(cfg_name) == DefineKey::load(key))","match DefineKey::load(key) { DefineKey::Boolean(k) => k == cfg_name, DefineKey::Named(k, _) => k == cfg_name })")]),
("cond-notsimple","C30","bad",[(C,"""                out.write(if config.language == Language::Cython {
                    "not "
                } else {
                    "!"
                });
                condition.write(config, out);""","""                out.write(if config.language == Language::Cython {
                    "not "
                } else {
                    "!"
                });
                if let (Condition::Any(v), true) = (&**condition, config.language == Language::C) {
                    v[0].write(config, out);
                    return;
                }
                condition.write(config, out);""")]),
("m-push-comma","C26","bad",[(MG,"            if i != 0 {\n                self.push(Separator::Comma);","            if i != 0 && !matches!(arg, GenericArgument::Const(_)) {\n                self.push(Separator::Comma);")]),
("m-const-last","C26","bad",[(MG,"GenericArgument::Const(ConstExpr::Value(ref val)) => self.output.push_str(val),","GenericArgument::Const(ConstExpr::Value(ref val)) if val.len() < 8 => self.output.push_str(val),\n            GenericArgument::Const(ConstExpr::Value(_)) => self.output.push('N'),")]),
("m-nested-args","C26","bad",[(MG,"        if self.generic_values.is_empty() {\n            return;","        if self.generic_values.is_empty() || (!self.last && self.generic_values.len() > 3) {\n            return;")]),
("m-ptr-prim","C26","bad",[(MG,"                self.push(if is_const {","                self.push(if is_const && !matches!(**ty, Type::Primitive(_)) {")]),
("m-fnvoid","C26","bad",[(MG,"                self.append_mangled_type(ret, args.is_empty());","                if !args.is_empty() { self.append_mangled_type(ret, args.is_empty()); }")]),
("m-fn-close","C26","bad",[(MG,"                if !self.last {\n                    self.push(Separator::EndFn);","                if !self.last && !args.is_empty() {\n                    self.push(Separator::EndFn);")]),
("w-newline","C10","bad",[(W,"""                self.new_line();
                if semicolon {
                    self.write("};");""","""                self.new_line();
                if semicolon && self.line_number > 1 && self.spaces() == 0 {
                    self.write("};");""")]),
("w-cy-pop","C10","bad",[(W,"""        self.pop_tab();
        match self.bindings.config.language {""","""        if self.bindings.config.language != Language::Cython || semicolon {
            self.pop_tab();
        }
        match self.bindings.config.language {""")]),
("f-unchanged","C13,C14","bad",[(BI,"        if old_file_contents != new_file_contents {","        if old_file_contents.len() != new_file_contents.len() || self.items.is_empty() && old_file_contents != new_file_contents {")]),
("f-true","C13,C14","bad",[(BI,"            new_file.write_all(&new_file_contents).unwrap();\n            true","            new_file.write_all(&new_file_contents).unwrap();\n            !new_file_contents.is_empty()")]),
("f-write","C13,C14","bad",[(BI,"            new_file.write_all(&new_file_contents).unwrap();","            let _ = new_file.write(&new_file_contents).unwrap();")]),
("d-sources","C21","bad",[(BI,"            .chain(self.config.config_path.as_ref())","            .chain(self.config.config_path.as_ref().filter(|p| p.is_absolute()))")]),
("d-dedup","C21","bad",[(BI,"        canon_source_files.sort_unstable();","        canon_source_files.sort_unstable();\n        canon_source_files.dedup_by_key(|p| p.file_name().map(|s| s.to_owned()));")]),
("d-escape","C21","bad",[(BI,"""            let escaped_path = source_file.to_string_lossy().replace(' ', "\\\\ ");""","""            let escaped_path = source_file.to_string_lossy();""")]),
("d-lib","C21","bad",[(P,"""    context.out.source_files = context.cache_src.keys().map(|k| k.to_owned()).collect();
    context.out.package_version""","""    context.out.source_files = context.cache_src.keys().filter(|k| k.is_relative() || k.ends_with("lib.rs")).map(|k| k.to_owned()).collect();
    context.out.package_version""")]),
("sk-assoc","C23","bad",[(P,"""                if !associated_constant.should_skip_parsing() =>""","""                if !associated_constant.should_skip_parsing() || item_impl.trait_.is_some() =>""")]),
("sk-static","C23","bad",[(P,"""        if let Some(exported_name) = item.exported_name() {
            let path = Path::new(exported_name);
            match Static::load""","""        if let Some(exported_name) = item.exported_name().or_else(|| matches!(item.mutability, syn::StaticMutability::Mut(_)).then(|| item.ident.to_string())) {
            let path = Path::new(exported_name);
            match Static::load""")]),
("sk-fnwhere","C23","bad",[(P,"let is_extern_c = sig.abi.is_omitted() || sig.abi.is_c() || sig.abi.is_cmse();","let is_extern_c = sig.abi.is_omitted() || sig.abi.is_c() || sig.abi.is_cmse() || sig.inputs.is_empty();")]),
("inc-first","C08,C13","bad",[(P,"""                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1)?;""","""                    let _ = self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1);""")]),
("err-map","C13","bad",[(P,"""                f.read_to_string(&mut s)
                    .map_err(|_| Error::ParseCannotOpenFile {
                        crate_name: pkg.name.clone(),
                        src_path: mod_path.to_str().unwrap().to_owned(),
                    })?;""","""                if f.read_to_string(&mut s).is_err() {
                    s.clear();
                }""")]),
]
