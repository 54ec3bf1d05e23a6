TY="src/bindgen/ir/ty.rs"; ST="src/bindgen/ir/structure.rs"; UN="src/bindgen/ir/union.rs"; EN="src/bindgen/ir/enumeration.rs"; LI="src/bindgen/library.rs"; TD="src/bindgen/ir/typedef.rs"; FU="src/bindgen/ir/function.rs"; DE="src/bindgen/dependencies.rs"; MO="src/bindgen/monomorph.rs"; BI="src/bindgen/bindings.rs"; MA="src/main.rs"; GP="src/bindgen/ir/generic_path.rs"; CO="src/bindgen/ir/constant.rs"
M=[
("dep-array0","C02","bad",[(TY,"""            Type::Array(ref ty, _) => {
                ty.add_dependencies_ignoring_generics(generic_params, library, out);
            }""","""            Type::Array(ref ty, ref len) => {
                if len.as_str() != "0" {
                    ty.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }""")]),
("dep-fnret","C02","bad",[(TY,"""            Type::FuncPtr {
                ref ret, ref args, ..
            } => {
                ret.add_dependencies_ignoring_generics(generic_params, library, out);""","""            Type::FuncPtr {
                ref ret, ref args, never_return, ..
            } => {
                if !never_return && !args.is_empty() {
                    ret.add_dependencies_ignoring_generics(generic_params, library, out);
                }""")]),
("dep-ptr","C02","bad",[(TY,"""            Type::Ptr { ref ty, .. } => {
                ty.add_dependencies_ignoring_generics(generic_params, library, out);
            }""","""            Type::Ptr { ref ty, .. } => {
                if !matches!(**ty, Type::FuncPtr { .. }) {
                    ty.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }""")]),
("dep-order","C02","bad",[(DE,"""        for item in &items {
            item.deref().add_dependencies(library, self);
        }
        for item in items {
            self.order.push(item);
        }""","""        for item in items {
            item.deref().add_dependencies(library, self);
            self.order.push(item);
        }""")]),
("dep-order2","C02","bad",[(DE,"""        for item in &items {
            item.deref().add_dependencies(library, self);
        }
        for item in items {
            self.order.push(item);
        }""","""        let opaque_only = items.len() > 1;
        for item in &items {
            if !opaque_only {
                item.deref().add_dependencies(library, self);
            }
        }
        for item in items {
            self.order.push(item);
        }""")]),
("dep-sortbad","C02","bad",[(DE,"""            (ItemContainer::Enum(x), _) if x.tag.is_none() => Ordering::Less,
            (_, ItemContainer::Enum(x)) if x.tag.is_none() => Ordering::Greater,""","""            (ItemContainer::Enum(x), _) if x.tag.is_none() || x.variants.is_empty() => Ordering::Less,
            (_, ItemContainer::Enum(x)) if x.tag.is_none() || x.variants.is_empty() => Ordering::Greater,
            (ItemContainer::Typedef(x), ItemContainer::Typedef(y)) => x.path.cmp(&y.path),""")]),
("dep-fnargs","C02","bad",[(FU,"""        for arg in &self.args {
            arg.ty.add_dependencies(library, out);
        }""","""        for arg in &self.args {
            if arg.array_length.is_none() {
                arg.ty.add_dependencies(library, out);
            }
        }""")]),
("dep-include","C02","bad",[(LI,"""                if dependencies.items.insert(path) {
                    for item in &items {
                        item.deref().add_dependencies(&self, &mut dependencies);
                    }""","""                if dependencies.items.insert(path) {
                    if let Some(item) = items.first() {
                        item.deref().add_dependencies(&self, &mut dependencies);
                    }""")]),
("ren-ptr","C03","bad",[(TY,"""            Type::Ptr { ref mut ty, .. } => {
                ty.rename_for_config(config, generic_params);
            }""","""            Type::Ptr { ref mut ty, is_ref, .. } => {
                if !is_ref || config.language != Language::Cxx {
                    ty.rename_for_config(config, generic_params);
                }
            }""")]),
("ren-struct-skip","C03","bad",[(ST,"""            let fields = self.fields.iter_mut().skip(self.has_tag_field as usize);
            for field in fields {
                field.ty.rename_for_config""","""            let fields = self.fields.iter_mut().skip(self.is_enum_variant_body as usize);
            for field in fields {
                field.ty.rename_for_config""")]),
("ren-typedef","C03","bad",[(TD,"""        self.aliased.rename_for_config(config, &self.generic_params);""","""        if self.generic_params.is_empty() || config.language == Language::Cxx {
            self.aliased.rename_for_config(config, &self.generic_params);
        }""")]),
("ren-path","C03","bad",[(GP,"""        if !generic_params.iter().any(|param| param.name() == &self.path) {""","""        if !generic_params.iter().any(|param| param.name() == &self.path) && self.path.name().len() > 1 {""")]),
("ren-funcs","C03","bad",[(LI,"""        for item in &mut self.functions {
            item.rename_for_config(&self.config);
        }""","""        for item in &mut self.functions {
            if item.annotations.should_export() {
                item.rename_for_config(&self.config);
            }
        }""")]),
("ren-struct-name","C03","bad",[(ST,"""        if !(self.has_tag_field && config.language == Language::Cxx) {""","""        if !(self.is_enum_variant_body && config.language == Language::Cxx) {""")]),
("mono-generic","C04","bad",[(TY,"""                if generic.generics().is_empty() || out.contains(generic) {
                    return;
                }
                let path = generic.path();""","""                if generic.generics().is_empty() || out.contains(generic) {
                    return;
                }
                if !matches!(generic.generics()[0], GenericArgument::Type(_)) && generic.generics().len() == 1 {
                    return;
                }
                let path = generic.path();""")]),
("mono-first","C04","bad",[(TY,"""                    for item in items {
                        item.deref()
                            .instantiate_monomorph(generic.generics(), library, out);
                    }""","""                    if let Some(item) = items.into_iter().next() {
                        item.deref()
                            .instantiate_monomorph(generic.generics(), library, out);
                    }""")]),
("mono-nested","C04","bad",[(MO,"""        monomorph.add_monomorphs(library, self);

        self.unions.push(monomorph);""","""        if monomorph.fields.len() > 1 {
            monomorph.add_monomorphs(library, self);
        }

        self.unions.push(monomorph);""")]),
("mono-filter","C04","bad",[(LI,"""        self.enums.filter(|x| x.is_generic());""","""        self.enums.filter(|x| x.is_generic() && x.tag.is_some());""")]),
("mangle-fnptr","C04","bad",[(TY,"""                ret.mangle_paths(monomorphs);
                for (_, ref mut arg) in args {
                    arg.mangle_paths(monomorphs);
                }""","""                ret.mangle_paths(monomorphs);
                for (name, ref mut arg) in args {
                    if name.is_some() {
                        arg.mangle_paths(monomorphs);
                    }
                }""")]),
("mangle-struct","C04","bad",[(ST,"""        for field in &mut self.fields {
            field.ty.mangle_paths(monomorphs);
        }""","""        if self.is_transparent {
            return;
        }
        for field in &mut self.fields {
            field.ty.mangle_paths(monomorphs);
        }""")]),
("spec-nullable","C05","bad",[(TY,"""                ty: Box::new(ty.specialize(mappings)),
                is_const,
                is_nullable,
                is_ref,""","""                ty: Box::new(ty.specialize(mappings)),
                is_const,
                is_nullable: is_nullable && !is_ref,
                is_ref,""")]),
("spec-mapping","C05","bad",[(TY,"""                    if generic_path.path() == param {
                        if let""","""                    if generic_path.path() == param && generic_path.generics().is_empty() && mappings.len() < 8 {
                        if let""")]),
("spec-structdoc","C05","bad",[(ST,"""            self.cfg.clone(),
            self.annotations.clone(),
            self.documentation.clone(),
        )
    }

    pub(crate) fn emit""","""            self.cfg.clone(),
            self.annotations.clone(),
            if config.documentation { self.documentation.clone() } else { Documentation::none() },
        )
    }

    pub(crate) fn emit""")]),
("spec-field-filter","C05","bad",[(ST,"""            self.fields
                .iter()
                .map(|field| Field {""","""            self.fields
                .iter()
                .filter(|f| !f.annotations.bool("skip").unwrap_or(false))
                .map(|field| Field {""")]),
("simp-2","C06","bad",[(TY,"""            "SyncUnsafeCell" | "UnsafeCell" | "Cell" => Some(generic.into_owned()),""","""            "SyncUnsafeCell" | "UnsafeCell" => Some(generic.into_owned()),
            "Cell" if config.language != Language::Cxx => Some(generic.into_owned()),""")]),
("simp-visit","C06","bad",[(TY,"""                visitor(ret);
                for arg in args {
                    visitor(&mut arg.1)
                }""","""                visitor(ret);
                for arg in args.iter_mut().filter(|a| a.0.is_some()) {
                    visitor(&mut arg.1)
                }""")]),
("simp-outer","C06","bad",[(TY,"""        self.visit_types(|ty| ty.simplify_standard_types(config));
        if let""","""        if !matches!(*self, Type::Ptr { is_ref: true, .. }) {
            self.visit_types(|ty| ty.simplify_standard_types(config));
        }
        if let""")]),
("simp-nonnull-const","C06","bad",[(TY,"""            "NonNull" => Some(Type::Ptr {
                ty: Box::new(generic.into_owned()),
                is_const: false,""","""            "NonNull" => Some(Type::Ptr {
                is_const: matches!(*generic, Type::FuncPtr { .. }),
                ty: Box::new(generic.into_owned()),""")]),
("simp-order","C06","bad",[(LI,"""        self.transfer_annotations();
        self.simplify_standard_types();
""","""        self.transfer_annotations();
        if self.config.language != Language::Cxx || self.config.cpp_compat {
            self.simplify_standard_types();
        }
""")]),
("tag-early","C07","bad",[(LI,"""        if !self.config.style.generate_tag() {
            return;
        }
""","""        if !self.config.style.generate_tag() || self.config.style.generate_typedef() {
            return;
        }
""")]),
("tag-globals","C07","bad",[(LI,"""        self.globals
            .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));
""","""        if !self.config.cpp_compat {
            self.globals
                .for_all_items_mut(|x| x.resolve_declaration_types(&resolver));
        }
""")]),
("tag-fn","C07","bad",[(FU,"""        for arg in &mut self.args {
            arg.ty.resolve_declaration_types(resolver);
        }""","""        for arg in self.args.iter_mut().filter(|a| a.name.is_some()) {
            arg.ty.resolve_declaration_types(resolver);
        }""")]),
("tag-transparent","C07","bad",[(ST,"""        if self.is_transparent {
            resolver.add_none(&self.path);""","""        if self.is_transparent || self.fields.is_empty() {
            resolver.add_none(&self.path);""")]),
("tag-lang","C07","bad",[(LI,"""        if self.config.language == Language::C {
            self.resolve_declaration_types();""","""        if self.config.language == Language::C && !self.config.cpp_compat {
            self.resolve_declaration_types();""")]),
("wtf-nodir","C14","bad",[(BI,"""        if old_file_contents != new_file_contents {
            let""","""        if old_file_contents.len() != new_file_contents.len() || !old_file_contents.starts_with(&new_file_contents[..new_file_contents.len() / 2]) {
            let""")]),
("wtf-trim","C14","bad",[(BI,"""        if old_file_contents != new_file_contents {
            let""","""        if old_file_contents.trim_ascii_end() != new_file_contents.trim_ascii_end() {
            let""")]),
("noop-sym","C15","bad",[(BI,"""        if self.noop {
            return;
        }

        if let Some(dir) = symfile_path""","""        if self.noop && self.functions.is_empty() && self.config.config_path.is_none() {
            return;
        }

        if let Some(dir) = symfile_path""")]),
("dep-dedupspace","C21","bad",[(BI,"""            let escaped_path = source_file.to_string_lossy().replace(' ', "\\\\ ");""","""            let escaped_path = source_file.to_string_lossy().replacen(' ', "\\\\ ", 1);""")]),
("dep-cfg","C21","bad",[(BI,"""            .chain(self.config.config_path.as_ref())
""","""            .chain(self.config.config_path.as_ref().filter(|p| p.is_relative()))
""")]),
("dep-filter","C21","bad",[(BI,"""            .map(|p| p.canonicalize().unwrap())
            .collect();""","""            .map(|p| p.canonicalize().unwrap())
            .filter(|p| *p != canon_header_path)
            .take(4096)
            .collect();""")]),
("sym-err","C13","bad",[(BI,"""            writeln!(&mut writer, "{symbol};").expect("writing symbol failed");""","""            if writeln!(&mut writer, "{symbol};").is_err() { break; }""")]),
]
