L="src/bindgen/library.rs"; TY="src/bindgen/ir/ty.rs"; ST="src/bindgen/ir/structure.rs"; UN="src/bindgen/ir/union.rs"; PA="src/bindgen/parser.rs"; BI="src/bindgen/bindings.rs"
EX="src/bindgen/cargo/cargo_expand.rs"; MA="src/main.rs"; BU="src/bindgen/builder.rs"; EN="src/bindgen/ir/enumeration.rs"; FN="src/bindgen/ir/function.rs"; GP="src/bindgen/ir/generic_path.rs"; IT="src/bindgen/ir/item.rs"; DE="src/bindgen/dependencies.rs"; CA="src/bindgen/cargo/cargo.rs"
M=[
("deps","ALL","ok",[(L,"""        let mut dependencies = Dependencies::new();

        for function in &self.functions {
            function.add_dependencies(&self, &mut dependencies);
        }
        self.globals.for_all_items(|global| {
            global.add_dependencies(&self, &mut dependencies);
        });
        self.constants.for_all_items(|constant| {
            constant.add_dependencies(&self, &mut dependencies);
        });
        for name in &self.config.export.include {
            let path = Path::new(name.clone());
            if let Some(items) = self.get_items(&path) {
                if dependencies.items.insert(path) {
                    for item in &items {
                        item.deref().add_dependencies(&self, &mut dependencies);
                    }
                    for item in items {
                        dependencies.order.push(item);
                    }
                }
            }
        }

        dependencies.sort();

        let items = dependencies.order;""","""        let items = self.collect_dependencies().order;"""),(L,"    pub fn get_items(&self, p: &Path)","""    /// Gathers the types used by the exported items, in output order.
    fn collect_dependencies(&self) -> Dependencies {
        let mut out = Dependencies::new();
        self.functions
            .iter()
            .for_each(|f| f.add_dependencies(self, &mut out));
        self.globals
            .for_all_items(|g| g.add_dependencies(self, &mut out));
        self.constants
            .for_all_items(|c| c.add_dependencies(self, &mut out));
        for name in &self.config.export.include {
            self.include_by_name(name, &mut out);
        }
        out.sort();
        out
    }

    fn include_by_name(&self, name: &str, out: &mut Dependencies) {
        let path = Path::new(name);
        let Some(items) = self.get_items(&path) else {
            return;
        };
        if !out.items.insert(path) {
            return;
        }
        for item in &items {
            item.deref().add_dependencies(self, out);
        }
        out.order.extend(items);
    }

    pub fn get_items(&self, p: &Path)""")]),
("excl","ALL","ok",[(L,"""        self.functions
            .retain(|x| !config.export.exclude.iter().any(|y| y == x.path().name()));
        self.enums
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
        self.structs
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));""","""        let is_excluded = |path: &Path| config.export.exclude.iter().any(|y| y == path.name());
        self.functions.retain(|x| !is_excluded(x.path()));
        self.structs.filter(|x| is_excluded(x.path()));
        self.enums.filter(|x| is_excluded(x.path()));""")]),
("rename","ALL","ok",[(L,"""        for item in &mut self.functions {
            item.rename_for_config(&self.config);
        }
    }""","""        self.functions
            .iter_mut()
            .for_each(|function| function.rename_for_config(config));
    }"""),(L,"""        self.globals
            .for_all_items_mut(|x| x.rename_for_config(config));
        self.globals.rebuild();

        self.constants
            .for_all_items_mut(|x| x.rename_for_config(config));
        self.constants.rebuild();
""","""        fn rename_map<T: Item + Clone>(map: &mut ItemMap<T>, config: &Config) {
            map.for_all_items_mut(|x| x.rename_for_config(config));
            map.rebuild();
        }
        rename_map(&mut self.constants, config);
        rename_map(&mut self.globals, config);
""")]),
("resolve","ALL","ok",[(L,"""        if !self.config.style.generate_tag() {
            return;
        }

        let mut resolver""","""        let mut resolver"""),(L,"        if self.config.language == Language::C {\n            self.resolve","        if self.config.language == Language::C && self.config.style.generate_tag() {\n            self.resolve"),
  (L,"""        self.enums
            .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));

        self.structs
            .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));
""","""        self.structs
            .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));

        self.enums
            .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));
""")]),
("mono","ALL","ok",[(L,"""        // Collect a list of monomorphs
        let mut monomorphs = Monomorphs::default();

        self.structs.for_all_items(|x| {
            x.add_monomorphs(self, &mut monomorphs);
        });
        self.unions.for_all_items(|x| {
            x.add_monomorphs(self, &mut monomorphs);
        });
        self.enums.for_all_items(|x| {
            x.add_monomorphs(self, &mut monomorphs);
        });
        self.typedefs.for_all_items(|x| {
            x.add_monomorphs(self, &mut monomorphs);
        });
        self.globals.for_all_items(|x| {
            x.add_monomorphs(self, &mut monomorphs);
        });
        for x in &self.functions {
            x.add_monomorphs(self, &mut monomorphs);
        }
""","""        let mut monomorphs = self.collect_monomorphs();
"""),(L,"""        // Mangle the paths that remain
        self.unions
            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));""","""        self.mangle_remaining(&monomorphs);
    }

    /// Collect a list of monomorphs
    fn collect_monomorphs(&self) -> Monomorphs {
        let mut out = Monomorphs::default();
        self.structs.for_all_items(|x| x.add_monomorphs(self, &mut out));
        self.unions.for_all_items(|x| x.add_monomorphs(self, &mut out));
        self.enums.for_all_items(|x| x.add_monomorphs(self, &mut out));
        self.typedefs.for_all_items(|x| x.add_monomorphs(self, &mut out));
        self.globals.for_all_items(|x| x.add_monomorphs(self, &mut out));
        self.functions.iter().for_each(|x| x.add_monomorphs(self, &mut out));
        out
    }

    /// Mangle the paths that remain
    fn mangle_remaining(&mut self, monomorphs: &Monomorphs) {
        self.unions
            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));""")]),
("tydeps","ALL","ok",[(TY,"""            Type::Primitive(_) => {}
            Type::Array(ref ty, _) => {
                ty.add_dependencies_ignoring_generics(generic_params, library, out);
            }
            Type::FuncPtr {
                ref ret, ref args, ..
            } => {
                ret.add_dependencies_ignoring_generics(generic_params, library, out);
                for (_, ref arg) in args {
                    arg.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }
        }
    }

    pub fn add_dependencies(""","""            Type::Primitive(_) => {}
            Type::FuncPtr {
                ref ret, ref args, ..
            } => {
                let types = std::iter::once(&**ret).chain(args.iter().map(|arg| &arg.1));
                for ty in types {
                    ty.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }
        }
    }

    pub fn add_dependencies("""),(TY,"""            Type::Ptr { ref ty, .. } => {
                ty.add_dependencies_ignoring_generics(generic_params, library, out);
            }""","""            Type::Ptr { ref ty, .. } | Type::Array(ref ty, _) => {
                ty.add_dependencies_ignoring_generics(generic_params, library, out);
            }"""),(TY,"""                let path = generic.path();
                if !generic_params.iter().any(|param| param.name() == path) {
                    out.add(library, path);
                }""","""                let path = generic.path();
                let is_param = generic_params.iter().any(|param| param.name() == path);
                if is_param {
                    return;
                }
                out.add(library, path);""")]),
("tyspec","ALL","ok",[(TY,"""                args: args
                    .iter()
                    .cloned()
                    .map(|(name, ty)| (name, ty.specialize(mappings)))
                    .collect(),
                is_nullable,""","""                args: {
                    let mut specialized = Vec::with_capacity(args.len());
                    for (name, ty) in args {
                        specialized.push((name.clone(), ty.specialize(mappings)));
                    }
                    specialized
                },
                is_nullable,"""),(TY,"""                for &(param, value) in mappings {
                    if generic_path.path() == param {
                        if let GenericArgument::Type(ref ty) = *value {
                            return ty.clone();
                        }
                    }
                }

                let specialized""","""                let replacement = mappings.iter().find_map(|&(param, value)| match *value {
                    GenericArgument::Type(ref ty) if generic_path.path() == param => Some(ty),
                    _ => None,
                });
                if let Some(ty) = replacement {
                    return ty.clone();
                }

                let specialized""")]),
("stspec","ALL","ok",[(ST,"""        Struct::new(
            mangled_path,
            GenericParams::default(),
            self.fields
                .iter()
                .map(|field| Field {
                    name: field.name.clone(),
                    ty: field.ty.specialize(mappings),
                    cfg: field.cfg.clone(),
                    annotations: field.annotations.clone(),
                    documentation: field.documentation.clone(),
                })
                .collect(),
""","""        let mut fields = Vec::with_capacity(self.fields.len());
        for field in &self.fields {
            let mut field = field.clone();
            field.ty = field.ty.specialize(mappings);
            fields.push(field);
        }
        Struct::new(
            mangled_path,
            GenericParams::default(),
            fields,
"""),(ST,"        AnnotationSet, Cfg","        AnnotationSet, Cfg") if False else (UN,"ty: field.ty.specialize(&mappings),\n                    cfg: field.cfg.clone(),\n                    annotations: field.annotations.clone(),\n                    documentation: field.documentation.clone(),","ty: field.ty.specialize(&mappings),\n                    ..field.clone()")]),
("parsecrate","ALL","ok",[(PA,"""        for (dep_pkg, cfg) in self.lib.as_ref().unwrap().dependencies(pkg) {
            if !self.should_parse_dependency(&dep_pkg.name) {
                continue;
            }

            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            self.parse_crate(&dep_pkg)?;

            if cfg.is_some() {
                self.cfg_stack.pop();
            }
        }

        Ok(())
    }
""","""        for (dep_pkg, cfg) in self.lib.as_ref().unwrap().dependencies(pkg) {
            if self.should_parse_dependency(&dep_pkg.name) {
                self.parse_dependency(&dep_pkg, cfg)?;
            }
        }

        Ok(())
    }

    fn parse_dependency(&mut self, pkg: &PackageRef, cfg: Option<Cfg>) -> Result<(), Error> {
        match cfg {
            Some(cfg) => {
                self.cfg_stack.push(cfg);
                self.parse_crate(pkg)?;
                self.cfg_stack.pop();
                Ok(())
            }
            None => self.parse_crate(pkg),
        }
    }
""")]),
("parsemod","ALL","ok",[(PA,"""                let mut s = String::new();
                let mut f = File::open(mod_path).map_err(|_| Error::ParseCannotOpenFile {
                    crate_name: pkg.name.clone(),
                    src_path: mod_path.to_str().unwrap().to_owned(),
                })?;

                f.read_to_string(&mut s)
                    .map_err(|_| Error::ParseCannotOpenFile {
                        crate_name: pkg.name.clone(),
                        src_path: mod_path.to_str().unwrap().to_owned(),
                    })?;
""","""                let s = std::fs::read_to_string(mod_path).map_err(|_| Error::ParseCannotOpenFile {
                    crate_name: pkg.name.clone(),
                    src_path: mod_path.to_str().unwrap().to_owned(),
                })?;
"""),(PA,"use std::fs::File;\nuse std::io::Read;\n","")]),
("wtf","ALL","ok",[(BI,"""        let mut old_file_contents = Vec::new();
        {
            let mut old_file = File::open(&path).unwrap();
            old_file.read_to_end(&mut old_file_contents).unwrap();
        }

        if old_file_contents != new_file_contents {
            let mut new_file = File::create(&path).unwrap();
            new_file.write_all(&new_file_contents).unwrap();
            true
        } else {
            false
        }""","""        let old_file_contents = fs::read(&path).unwrap();
        if old_file_contents == new_file_contents {
            return false;
        }

        let mut new_file = File::create(&path).unwrap();
        new_file.write_all(&new_file_contents).unwrap();
        true"""),(BI,"use std::io::{BufWriter, Read, Write};","use std::io::{BufWriter, Write};")]),
("depfile","ALL","ok",[(BI,"""        canon_source_files.into_iter().for_each(|source_file| {
            // Add line-continue and line-break and then indent with 4 spaces.
            // This makes the output more human-readable.
            depfile.write_all(b" \\\\\\n    ").unwrap();
            let escaped_path = source_file.to_string_lossy().replace(' ', "\\\\ ");
            depfile.write_all(escaped_path.as_bytes()).unwrap();
        });
""","""        for source_file in &canon_source_files {
            let escaped_path = escape(source_file);
            // Add line-continue and line-break and then indent with 4 spaces.
            // This makes the output more human-readable.
            depfile.write_all(b" \\\\\\n    ").unwrap();
            depfile.write_all(escaped_path.as_bytes()).unwrap();
        }
"""),(BI,"""        write!(
            &mut depfile,
            "{}:",
            canon_header_path.to_string_lossy().replace(' ', "\\\\ ")
        )
        .expect""","""        let escape = |p: &path::Path| p.to_string_lossy().replace(' ', "\\\\ ");
        write!(&mut depfile, "{}:", escape(&canon_header_path)).expect""")]),
("expand","ALL","ok",[(EX,"""        let mut features_str = String::new();
        for (index, feature) in features.iter().enumerate() {
            if index != 0 {
                features_str.push(' ');
            }
            features_str.push_str(feature);
        }
        cmd.arg(features_str);""","""        cmd.arg(features.join(" "));"""),(EX,"""    cmd.arg("rustc");
    cmd.arg("--lib");
""","""    cmd.args(["rustc", "--lib"]);
"""),(EX,"""    match profile {
        Profile::Debug => {}
        Profile::Release => {
            cmd.arg("--release");
        }
    }
""","""    if profile == Profile::Release {
        cmd.arg("--release");
    }
"""),(EX,"""    if src.is_empty() {
        Err(Error::Compile(error))
    } else {
        Ok(src)
    }""","""    if src.is_empty() {
        return Err(Error::Compile(error));
    }
    Ok(src)""")]),
("mainw","ALL","ok",[(MA,"""    // Write the bindings file
    match matches.get_one::<PathBuf>("out") {
        Some(file) => {
            let changed = bindings.write_to_file(file);

            if matches.get_flag("verify") && changed {
                error!("Bindings changed: {}", file.display());
                std::process::exit(2);
            }
            if let Some(depfile) = matches.get_one("depfile") {
                bindings.generate_depfile(file, depfile);
            }
            if let Some(symfile) = matches.get_one::<String>("symfile") {
                bindings.generate_symfile(symfile);
            }
        }
        _ => {
            bindings.write(io::stdout());
        }
    }
}""","""    // Write the bindings file
    if let Some(file) = matches.get_one::<PathBuf>("out") {
        write_output(&bindings, file, &matches);
    } else {
        bindings.write(io::stdout());
    }
}

fn write_output(bindings: &Bindings, file: &PathBuf, matches: &ArgMatches) {
    let verify = matches.get_flag("verify");
    let changed = bindings.write_to_file(file);
    if changed && verify {
        error!("Bindings changed: {}", file.display());
        std::process::exit(2);
    }
    if let Some(depfile) = matches.get_one("depfile") {
        bindings.generate_depfile(file, depfile);
    }
    if let Some(symfile) = matches.get_one::<String>("symfile") {
        bindings.generate_symfile(symfile);
    }
}""")]),
("loadb","ALL","ok",[(MA,"""        let mut config = match matches.get_one::<PathBuf>("config") {
            Some(c) => Config::from_file(c).unwrap(),
            None => Config::from_root_or_default(
                input
                    .parent()
                    .expect("All files should have a parent directory"),
            ),
        };

        apply_config_overrides(&mut config, matches);

        return Builder::new()
            .with_config(config)
            .with_src(input)
            .generate();
    }
""","""        return load_single_source(input, matches);
    }
"""),(MA,"fn load_bindings(","""fn load_single_source(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error> {
    let mut config = match matches.get_one::<PathBuf>("config") {
        Some(c) => Config::from_file(c).unwrap(),
        None => {
            let dir = input
                .parent()
                .expect("All files should have a parent directory");
            Config::from_root_or_default(dir)
        }
    };
    apply_config_overrides(&mut config, matches);
    let builder = Builder::new().with_config(config);
    builder.with_src(input).generate()
}

fn load_bindings(""")]),
("builder","ALL","ok",[(BU,"""        if std::env::var("_CBINDGEN_IS_RUNNING").is_ok() {
            return Ok(Bindings::new(""","""        let is_recursive = std::env::var("_CBINDGEN_IS_RUNNING").is_ok();
        if is_recursive {
            return Ok(Bindings::new("""),(BU,"""        } else if let Some(cargo) = self.lib_cargo.clone() {
            result.extend_with(&parser::parse_lib(cargo, &self.config)?);
        }
""","""        } else if let Some(ref cargo) = self.lib_cargo {
            let parsed = parser::parse_lib(cargo.clone(), &self.config)?;
            result.extend_with(&parsed);
        }
""")]),
("fnload","ALL","ok",[(PA,"""        match (is_extern_c, exported_name) {
            (true, Some(exported_name)) => {
                let path = Path::new(exported_name);
                match Function::load(path, self_type, sig, false, attrs, mod_cfg) {
                    Ok(func) => {
                        info!("Take {}.", loggable_item_name());
                        self.functions.push(func);
                    }
                    Err(msg) => {
                        error!("Cannot use fn {} ({}).", loggable_item_name(), msg);
                    }
                }
            }
            (true, None) => {
                warn!(
                    "Skipping {} - (not `no_mangle`, and has no `export_name` attribute)",
                    loggable_item_name()
                );
            }
            (false, Some(_exported_name)) => {
                warn!("Skipping {} - (not `extern \\"C\\"`)", loggable_item_name());
            }
            (false, None) => {}
        }""","""        let Some(exported_name) = exported_name else {
            if is_extern_c {
                warn!(
                    "Skipping {} - (not `no_mangle`, and has no `export_name` attribute)",
                    loggable_item_name()
                );
            }
            return;
        };
        if !is_extern_c {
            warn!("Skipping {} - (not `extern \\"C\\"`)", loggable_item_name());
            return;
        }
        let path = Path::new(exported_name);
        let func = match Function::load(path, self_type, sig, false, attrs, mod_cfg) {
            Ok(func) => func,
            Err(msg) => {
                error!("Cannot use fn {} ({}).", loggable_item_name(), msg);
                return;
            }
        };
        info!("Take {}.", loggable_item_name());
        self.functions.push(func);""")]),
("opaque","ALL","ok",[(PA,"""            Err(msg) => {
                info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                let path = Path::new(item.ident.unraw().to_string());
                self.opaque_items.try_insert(
                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
                );
            }
        }
    }

    /// Loads a `union` declaration""","""            Err(msg) => self.load_opaque(crate_name, &item.ident, &item.generics, &item.attrs, mod_cfg, &msg),
        }
    }

    fn load_opaque(
        &mut self,
        crate_name: &str,
        ident: &syn::Ident,
        generics: &syn::Generics,
        attrs: &[syn::Attribute],
        mod_cfg: Option<&Cfg>,
        reason: &str,
    ) {
        info!("Take {}::{} - opaque ({}).", crate_name, ident, reason);
        let path = Path::new(ident.unraw().to_string());
        let opaque = OpaqueItem::load(path, generics, attrs, mod_cfg).unwrap();
        self.opaque_items.try_insert(opaque);
    }

    /// Loads a `union` declaration"""),(PA,"""            Err(msg) => {
                info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                let path = Path::new(item.ident.unraw().to_string());
                self.opaque_items.try_insert(
                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
                );
            }
        }
    }

    /// Loads a `enum` declaration""","""            Err(msg) => self.load_opaque(crate_name, &item.ident, &item.generics, &item.attrs, mod_cfg, &msg),
        }
    }

    /// Loads a `enum` declaration""")]),
("itemmap","ALL","ok",[(IT,"""        let path = item.path().clone();
        if item.cfg().is_some() {
            self.data.insert(path, ItemValue::Cfg(vec![item]));
        } else {
            self.data.insert(path, ItemValue::Single(item));
        }

        true""","""        let path = item.path().clone();
        let value = match item.cfg() {
            Some(_) => ItemValue::Cfg(vec![item]),
            None => ItemValue::Single(item),
        };
        self.data.insert(path, value);
        true"""),(IT,"""        match (item.cfg().is_some(), self.data.get_mut(item.path())) {
            (true, Some(&mut ItemValue::Cfg(ref mut items))) => {
                items.push(item);
                return true;
            }
            (false, Some(&mut ItemValue::Cfg(_))) => {
                return false;
            }
            (true, Some(&mut ItemValue::Single(_))) => {
                return false;
            }
            (false, Some(&mut ItemValue::Single(_))) => {
                return false;
            }
            _ => {}
        }
""","""        if let Some(existing) = self.data.get_mut(item.path()) {
            return match existing {
                ItemValue::Cfg(items) if item.cfg().is_some() => {
                    items.push(item);
                    true
                }
                _ => false,
            };
        }
"""),(IT,"""        for container in self.data.values() {
            match *container {
                ItemValue::Cfg(ref items) => result.extend_from_slice(items),
                ItemValue::Single(ref item) => {
                    result.push(item.clone());
                }
            }
        }
        result""","""        self.for_all_items(|item| result.push(item.clone()));
        result""")]),
("enren","ALL","ok",[(EN,"""            for variant in &mut self.variants {
                variant.export_name =
                    format!("{}{}{}", self.export_name, separator, variant.export_name);
                if let VariantBody::Body { ref mut body, .. } = variant.body {
                    body.export_name =
                        format!("{}{}{}", self.export_name, separator, body.export_name());
                }
            }""","""            let prefix = format!("{}{}", self.export_name, separator);
            for variant in self.variants.iter_mut() {
                variant.export_name = format!("{prefix}{}", variant.export_name);
                if let VariantBody::Body { body, .. } = &mut variant.body {
                    body.export_name = format!("{prefix}{}", body.export_name());
                }
            }"""),(EN,"""            self.variants
                .iter()
                .map(|v| v.specialize(generic_values, &mappings, library.get_config()))
                .collect(),""","""            {
                let config = library.get_config();
                let mut variants = Vec::new();
                for v in &self.variants {
                    variants.push(v.specialize(generic_values, &mappings, config));
                }
                variants
            },""")]),
("enfields","ALL","ok",[(EN,"""                if config.language != Language::Cython {
                    condition.write_before(config, out);
                }
                language_backend.write_struct(out, body);
                if config.language != Language::Cython {
                    condition.write_after(config, out);
                }""","""                if config.language == Language::Cython {
                    language_backend.write_struct(out, body);
                    continue;
                }
                condition.write_before(config, out);
                language_backend.write_struct(out, body);
                condition.write_after(config, out);"""),(EN,"""        let mut first = true;
        for variant in &self.variants {
            if let VariantBody::Body {
                name, body, inline, ..
            } = &variant.body
            {
                if !first {
                    out.new_line();
                }
                first = false;
""","""        let with_data = self
            .variants
            .iter()
            .filter(|variant| !variant.body.is_empty());
        for (i, variant) in with_data.enumerate() {
            if let VariantBody::Body {
                name, body, inline, ..
            } = &variant.body
            {
                if i != 0 {
                    out.new_line();
                }
""")]),
("fnren","ALL","ok",[(FN,"""            let args = std::mem::take(&mut self.args);
            self.args = args
                .into_iter()
                .map(|arg| {
                    let name = arg
                        .name
                        .map(|n| r.apply(&n, IdentifierType::FunctionArg).into_owned());
                    FunctionArgument {
                        name,
                        ty: arg.ty,
                        array_length: None,
                    }
                })
                .collect()""","""            for arg in &mut self.args {
                if let Some(ref mut name) = arg.name {
                    *name = r.apply(name, IdentifierType::FunctionArg).into_owned();
                }
            }"""),(FN,"""        self.ret.add_monomorphs(library, out);
        for arg in &self.args {
            arg.ty.add_monomorphs(library, out);
        }""","""        for arg in self.args.iter() {
            arg.ty.add_monomorphs(library, out);
        }
        self.ret.add_monomorphs(library, out);""")]),
("depadd","ALL","ok",[(DE,"""        if self.items.contains(path) {
            return;
        }
        self.items.insert(path.clone());
        for item in &items {
            item.deref().add_dependencies(library, self);
        }
        for item in items {
            self.order.push(item);
        }""","""        if !self.items.insert(path.clone()) {
            return;
        }
        items
            .iter()
            .for_each(|item| item.deref().add_dependencies(library, self));
        self.order.extend(items);""")]),
("cargodeps","ALL","ok",[(CA,"""        if dependencies.is_none() {
            return vec![];
        }

        dependencies
            .unwrap()
            .iter()""","""        let Some(dependencies) = dependencies else {
            return vec![];
        };

        dependencies
            .iter()"""),(CA,"""                for lock_package in lock_packages {
                    if lock_package.name == package.name
                        && package
                            .version
                            .as_ref()
                            .map_or(true, |v| *v == lock_package.version)
                    {
                        dependencies = lock_package.dependencies.as_ref();
                        break;
                    }
                }""","""                dependencies = lock_packages
                    .iter()
                    .find(|lock_package| {
                        lock_package.name == package.name
                            && package
                                .version
                                .as_ref()
                                .map_or(true, |v| *v == lock_package.version)
                    })
                    .and_then(|lock_package| lock_package.dependencies.as_ref());""")]),
("findmod","ALL","ok",[(PA,"""                    let mut path_attr_found = false;
                    for attr in &item.attrs {
                        if let syn::Meta::NameValue(syn::MetaNameValue {""","""                    let mut path_attr_found = false;
                    for attr in item.attrs.iter() {
                        if let syn::Meta::NameValue(syn::MetaNameValue {"""),(PA,"""                if next_mod_path1.exists() {
                    self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1)?;
                } else if next_mod_path2.exists() {
                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1)?;
                } else {""","""                let default_path = [next_mod_path1, next_mod_path2]
                    .into_iter()
                    .find(|path| path.exists());
                if let Some(path) = default_path {
                    self.parse_mod(pkg, path.as_path(), depth + 1)?;
                } else {""")]),
("typedefspec","ALL","ok",[("src/bindgen/ir/typedef.rs","""        let monomorph = Typedef::new(
            mangled_path,
            GenericParams::default(),
            self.aliased.specialize(&mappings),
            self.cfg.clone(),
            self.annotations.clone(),
            self.documentation.clone(),
        );
""","""        let mut monomorph = self.clone();
        monomorph.export_name = mangled_path.name().to_owned();
        monomorph.path = mangled_path;
        monomorph.generic_params = GenericParams::default();
        monomorph.aliased = self.aliased.specialize(&mappings);
""")]),
("visit","ALL","ok",[(TY,"""                for generic in path.generics_mut() {
                    match *generic {
                        GenericArgument::Type(ref mut ty) => visitor(ty),
                        GenericArgument::Const(_) => {}
                    }
                }""","""                for generic in path.generics_mut() {
                    if let GenericArgument::Type(ty) = generic {
                        visitor(ty);
                    }
                }"""),(TY,"""                visitor(ret);
                for arg in args {
                    visitor(&mut arg.1)
                }""","""                args.iter_mut().for_each(|(_, arg)| visitor(arg));
                visitor(ret);""")]),
("tymangle","ALL","ok",[(TY,"""                if generic_path.generics().is_empty() {
                    return;
                }

                if let Some(mangled_path) = monomorphs.mangle_path(generic_path) {
                    *generic_path = GenericPath::new(mangled_path.clone(), vec![]);
                } else {
                    warn!(
                        "Cannot find a mangling for generic path {generic_path:?}. This usually means that a \\
                         type referenced by this generic was incompatible or not found."
                    );
                }""","""                if !generic_path.generics().is_empty() {
                    match monomorphs.mangle_path(generic_path) {
                        Some(mangled_path) => {
                            *generic_path = GenericPath::new(mangled_path.clone(), Vec::new())
                        }
                        None => warn!(
                            "Cannot find a mangling for generic path {generic_path:?}. This usually means that a \\
                             type referenced by this generic was incompatible or not found."
                        ),
                    }
                }""")]),
]
