CL="src/bindgen/language_backend/clike.rs"; CY="src/bindgen/language_backend/cython.rs"; LB="src/bindgen/language_backend/mod.rs"; CD="src/bindgen/cdecl.rs"
CF="src/bindgen/ir/cfg.rs"; WR="src/bindgen/writer.rs"; CO="src/bindgen/ir/constant.rs"; EN="src/bindgen/ir/enumeration.rs"; TY="src/bindgen/ir/ty.rs"; AN="src/bindgen/ir/annotation.rs"
CG="src/bindgen/config.rs"; BI="src/bindgen/bindings.rs"; MN="src/bindgen/mangle.rs"; PA="src/bindgen/parser.rs"; GP="src/bindgen/ir/generic_path.rs"; UT="src/bindgen/utilities.rs"; LI="src/bindgen/library.rs"
M=[
# conditional bracket in a helper taking a closure
("condwrap","ALL","ok",[(CL,"""        let condition = o.cfg.to_condition(self.config);
        condition.write_before(self.config, out);

        self.write_documentation(out, &o.documentation);

        o.generic_params.write_with_default(self, self.config, out);

        if self.generate_typedef() {
            write!(
                out,
                "typedef struct {} {};",
                o.export_name(),
                o.export_name()
            );
        } else {
            write!(out, "struct {};", o.export_name());
        }

        condition.write_after(self.config, out);
""","""        let condition = o.cfg.to_condition(self.config);
        condition.write_before(self.config, out);
        self.write_opaque_body(out, o);
        condition.write_after(self.config, out);
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn write_opaque_body<W: Write>(&mut self, out: &mut SourceWriter<W>, o: &OpaqueItem) {
        self.write_documentation(out, &o.documentation);
        o.generic_params.write_with_default(self, self.config, out);
        let name = o.export_name();
        if self.generate_typedef() {
            write!(out, "typedef struct {name} {name};");
        } else {
            write!(out, "struct {name};");
        }
    }

    fn generate_typedef(&self) -> bool {""")]),
# alignment annotation helper shared by struct and union
("align","ALL","ok",[(CL,"""        if let Some(align) = s.alignment {
            match align {
                ReprAlign::Packed => {
                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }
""","""        self.write_alignment(out, s.alignment);
"""),(CL,"""        if let Some(align) = u.alignment {
            match align {
                ReprAlign::Packed => {
                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }
""","""        self.write_alignment(out, u.alignment);
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn write_alignment<W: Write>(&self, out: &mut SourceWriter<W>, align: Option<ReprAlign>) {
        match align {
            None => {}
            Some(ReprAlign::Packed) => {
                if let Some(anno) = &self.config.layout.packed {
                    write!(out, " {anno}");
                }
            }
            Some(ReprAlign::Align(n)) => {
                if let Some(anno) = &self.config.layout.aligned_n {
                    write!(out, " {anno}({n})");
                }
            }
        }
    }

    fn generate_typedef(&self) -> bool {""")]),
# static includes as a loop over a slice
("includes","ALL","ok",[(CL,"""                    out.write("#include <stdarg.h>");
                    out.new_line();
                    out.write("#include <stdbool.h>");
                    out.new_line();
                    if self.config.usize_is_size_t {
                        out.write("#include <stddef.h>");
                        out.new_line();
                    }
                    out.write("#include <stdint.h>");
                    out.new_line();
                    out.write("#include <stdlib.h>");
                    out.new_line();
""","""                    for header in ["stdarg.h", "stdbool.h"] {
                        write!(out, "#include <{header}>");
                        out.new_line();
                    }
                    if self.config.usize_is_size_t {
                        out.write("#include <stddef.h>");
                        out.new_line();
                    }
                    for header in ["stdint.h", "stdlib.h"] {
                        write!(out, "#include <{header}>");
                        out.new_line();
                    }
""")]),
# namespaces via iterator chain
("ns","ALL","ok",[(CL,"""        let mut namespaces =
            if self.config.language != Language::Cxx && !self.config.cpp_compatible_c() {
                vec![]
            } else {
                let mut ret = vec![];
                if let Some(ref namespace) = self.config.namespace {
                    ret.push(&**namespace);
                }
                if let Some(ref namespaces) = self.config.namespaces {
                    for namespace in namespaces {
                        ret.push(&**namespace);
                    }
                }
                ret
            };

        if namespaces.is_empty() {
            return;
        }
""","""        if self.config.language != Language::Cxx && !self.config.cpp_compatible_c() {
            return;
        }
        let mut namespaces: Vec<&str> = self
            .config
            .namespace
            .iter()
            .chain(self.config.namespaces.iter().flatten())
            .map(|n| n.as_str())
            .collect();

        if namespaces.is_empty() {
            return;
        }
""")]),
# doc writer: prefix computed once
("docw","ALL","ok",[(CL,"""        for line in &d.doc_comment[..end] {
            match style {
                DocumentationStyle::C => out.write(""),
                DocumentationStyle::Doxy => out.write(" *"),
                DocumentationStyle::C99 => out.write("//"),
                DocumentationStyle::Cxx => out.write("///"),
                DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered
            }

            write!(out, "{line}");
            out.new_line();
        }

        match style {
            DocumentationStyle::C => {
                out.write(" */");
                out.new_line();
            }

            DocumentationStyle::Doxy => {
                out.write(" */");
                out.new_line();
            }

            _ => (),
        }
""","""        let prefix = match style {
            DocumentationStyle::C => "",
            DocumentationStyle::Doxy => " *",
            DocumentationStyle::C99 => "//",
            DocumentationStyle::Cxx => "///",
            DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered
        };
        d.doc_comment.iter().take(end).for_each(|line| {
            write!(out, "{prefix}{line}");
            out.new_line();
        });

        if matches!(style, DocumentationStyle::C | DocumentationStyle::Doxy) {
            out.write(" */");
            out.new_line();
        }
""")]),
# vertical list: shared separator
("vlist","ALL","ok",[(WR,"""        for (i, item) in items.iter().enumerate() {
            writer(language_backend, self, item);

            match list_type {
                ListType::Join(text) => {
                    if i != items.len() - 1 {
                        write!(self, "{text}");
                    }
                }
                ListType::Cap(text) => {
                    write!(self, "{text}");
                }
            }

            if i != items.len() - 1 {
                self.new_line();
            }
        }
        self.pop_tab();""","""        let mut rest = items.iter().peekable();
        while let Some(item) = rest.next() {
            writer(language_backend, self, item);
            let is_last = rest.peek().is_none();
            match list_type {
                ListType::Join(text) if !is_last => write!(self, "{text}"),
                ListType::Join(_) => {}
                ListType::Cap(text) => write!(self, "{text}"),
            }
            if !is_last {
                self.new_line();
            }
        }
        self.pop_set_spaces();""")]),
# open_brace restructured
("brace","ALL","ok",[(WR,"""            Language::Cxx | Language::C => match self.bindings.config.braces {
                Braces::SameLine => {
                    self.write(" {");
                    self.push_tab();
                    self.new_line();
                }
                Braces::NextLine => {
                    self.new_line();
                    self.write("{");
                    self.push_tab();
                    self.new_line();
                }
            },""","""            Language::Cxx | Language::C => {
                if self.bindings.config.braces == Braces::NextLine {
                    self.new_line();
                    self.write("{");
                } else {
                    self.write(" {");
                }
                self.push_tab();
                self.new_line();
            }""")]),
# condition writer: shared operator list
("condlist","ALL","ok",[(CF,"""            Condition::Any(ref conditions) => {
                out.write("(");
                for (i, condition) in conditions.iter().enumerate() {
                    if i != 0 {
                        out.write(if config.language == Language::Cython {
                            " or "
                        } else {
                            " || "
                        });
                    }
                    condition.write(config, out);
                }
                out.write(")");
            }
            Condition::All(ref conditions) => {
                out.write("(");
                for (i, condition) in conditions.iter().enumerate() {
                    if i != 0 {
                        out.write(if config.language == Language::Cython {
                            " and "
                        } else {
                            " && "
                        });
                    }
                    condition.write(config, out);
                }
                out.write(")");
            }""","""            Condition::Any(ref conditions) => {
                let op = if config.language == Language::Cython {
                    " or "
                } else {
                    " || "
                };
                Self::write_joined(conditions, op, config, out);
            }
            Condition::All(ref conditions) => {
                let op = if config.language == Language::Cython {
                    " and "
                } else {
                    " && "
                };
                Self::write_joined(conditions, op, config, out);
            }"""),(CF,"""impl Condition {
""","""impl Condition {
    fn write_joined<F: Write>(
        conditions: &[Condition],
        op: &'static str,
        config: &Config,
        out: &mut SourceWriter<F>,
    ) {
        out.write("(");
        let mut first = true;
        for condition in conditions {
            if !first {
                out.write(op);
            }
            first = false;
            condition.write(config, out);
        }
        out.write(")");
    }

""")]),
# define lookup shared
("definelookup","ALL","ok",[(CF,"""            Cfg::Boolean(ref cfg_name) => {
                let define = config
                    .defines
                    .iter()
                    .filter(|(key, ..)| DefineKey::Boolean(cfg_name) == DefineKey::load(key))
                    .min();
                if let Some((_, define)) = define {
                    Some(Condition::Define(define.to_owned()))
                } else {
                    warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                    None
                }
            }
            Cfg::Named(ref cfg_name, ref cfg_value) => {
                let define = config
                    .defines
                    .iter()
                    .filter(|(key, ..)| {
                        DefineKey::Named(cfg_name, cfg_value) == DefineKey::load(key)
                    })
                    .min();
                if let Some((_, define)) = define {
                    Some(Condition::Define(define.to_owned()))
                } else {
                    warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                    None
                }
            }""","""            Cfg::Boolean(ref cfg_name) => self.find_define(DefineKey::Boolean(cfg_name), config),
            Cfg::Named(ref cfg_name, ref cfg_value) => {
                self.find_define(DefineKey::Named(cfg_name, cfg_value), config)
            }"""),(CF,"""impl Cfg {
""","""impl Cfg {
    fn find_define(&self, wanted: DefineKey, config: &Config) -> Option<Condition> {
        let found = config
            .defines
            .iter()
            .filter(|(key, ..)| wanted == DefineKey::load(key))
            .min();
        match found {
            Some((_, define)) => Some(Condition::Define(define.clone())),
            None => {
                warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                None
            }
        }
    }

""")]),
# combine children shared
("cfgchildren","ALL","ok",[(CF,"""            Cfg::Any(ref children) => {
                let conditions: Vec<_> = children
                    .iter()
                    .filter_map(|x| x.to_condition(config))
                    .collect();
                match conditions.len() {
                    0 => None,
                    1 => conditions.into_iter().next(),
                    _ => Some(Condition::Any(conditions)),
                }
            }
            Cfg::All(ref children) => {
                let cfgs: Vec<_> = children
                    .iter()
                    .filter_map(|x| x.to_condition(config))
                    .collect();
                match cfgs.len() {
                    0 => None,
                    1 => cfgs.into_iter().next(),
                    _ => Some(Condition::All(cfgs)),
                }
            }""","""            Cfg::Any(ref children) => combine(children, config, Condition::Any),
            Cfg::All(ref children) => combine(children, config, Condition::All),"""),(CF,"""#[derive(Debug, Clone)]
pub enum Condition {""","""fn combine(
    children: &[Cfg],
    config: &Config,
    make: fn(Vec<Condition>) -> Condition,
) -> Option<Condition> {
    let mut conditions = Vec::new();
    for child in children {
        if let Some(condition) = child.to_condition(config) {
            conditions.push(condition);
        }
    }
    if conditions.len() > 1 {
        Some(make(conditions))
    } else {
        conditions.pop()
    }
}

#[derive(Debug, Clone)]
pub enum Condition {""")]),
# Cfg::append with if let
("cfgappend","ALL","ok",[(CF,"""        match (parent, child) {
            (None, None) => None,
            (None, Some(child)) => Some(child),
            (Some(parent), None) => Some(parent.clone()),
            (Some(parent), Some(child)) => Some(Cfg::All(vec![parent.clone(), child])),
        }""","""        let parent = match parent {
            Some(parent) => parent.clone(),
            None => return child,
        };
        Some(match child {
            Some(child) => Cfg::All(vec![parent, child]),
            None => parent,
        })""")]),
# cfg load via iterator
("cfgload","ALL","ok",[(CF,"""        let mut configs = Vec::new();

        for attr in attrs {
            if let syn::Meta::List(meta @ syn::MetaList { path, .. }) = &attr.meta {
                if !path.is_ident("cfg") {
                    continue;
                }

                let cfg = meta.parse_args().ok();

                if let Some(config) = cfg {
                    configs.push(config);
                }
            }
        }

        match configs.len() {""","""        let mut configs: Vec<Cfg> = attrs
            .iter()
            .filter_map(|attr| match &attr.meta {
                syn::Meta::List(meta) if meta.path.is_ident("cfg") => meta.parse_args().ok(),
                _ => None,
            })
            .collect();

        match configs.len() {""")]),
# write_before early return
("condbefore","ALL","ok",[(CF,"""        if let Some(ref cfg) = *self {
            if config.language == Language::Cython {
                out.write("IF ");
                cfg.write(config, out);
                out.open_brace();
            } else {
                out.push_set_spaces(0);
                out.write("#if ");
                cfg.write(config, out);
                out.pop_set_spaces();
                out.new_line();
            }
        }""","""        let Some(cfg) = self else { return };
        match config.language {
            Language::Cython => {
                out.write("IF ");
                cfg.write(config, out);
                out.open_brace();
            }
            Language::C | Language::Cxx => {
                out.push_set_spaces(0);
                out.write("#if ");
                cfg.write(config, out);
                out.pop_set_spaces();
                out.new_line();
            }
        }""")]),
# items partition: write constants helper
("consts","ALL","ok",[(LB,"""        for constant in &b.constants {
            if constant.uses_only_primitive_types() {
                out.new_line_if_not_start();
                constant.write(&b.config, self, out, None);
                out.new_line();
            }
        }""","""        self.write_constants_where(out, b, true)"""),(LB,"""        for constant in &b.constants {
            if !constant.uses_only_primitive_types() {
                out.new_line_if_not_start();
                constant.write(&b.config, self, out, None);
                out.new_line();
            }
        }""","""        self.write_constants_where(out, b, false)"""),(LB,"""    /// If the struct is transparent, emit""","""    fn write_constants_where<W: Write>(
        &mut self,
        out: &mut SourceWriter<W>,
        b: &Bindings,
        primitive: bool,
    ) {
        for constant in &b.constants {
            if constant.uses_only_primitive_types() != primitive {
                continue;
            }
            out.new_line_if_not_start();
            constant.write(&b.config, self, out, None);
            out.new_line();
        }
    }

    /// If the struct is transparent, emit""")]),
# cdecl: build_func push order/local
("cdecl","ALL","ok",[(CD,"""        let args = f
            .args
            .iter()
            .map(|arg| {
                (
                    arg.name.clone(),
                    CDecl::from_func_arg(&arg.ty, arg.array_length.as_deref(), config),
                )
            })
            .collect();
        self.declarators""","""        let mut args = Vec::with_capacity(f.args.len());
        for arg in &f.args {
            let decl = CDecl::from_func_arg(&arg.ty, arg.array_length.as_deref(), config);
            args.push((arg.name.clone(), decl));
        }
        self.declarators"""),(CD,"""                CDeclarator::Array(..) => {
                    if next_is_pointer {
                        out.write("(");
                    }
                }
                CDeclarator::Func { .. } => {
                    if next_is_pointer {
                        out.write("(");
                    }
                }""","""                CDeclarator::Array(..) | CDeclarator::Func { .. } => {
                    if next_is_pointer {
                        out.write("(");
                    }
                }""")]),
# enum: tag enum header extracted per language
("tagenum","ALL","ok",[(EN,"""        // Close the tag enum.
        if config.language == Language::C && size.is_none() && config.style.generate_typedef() {
            out.close_brace(false);
            write!(out, " {tag_name};");
        } else {
            out.close_brace(true);
        }
""","""        // Close the tag enum.
        let is_typedef =
            config.language == Language::C && size.is_none() && config.style.generate_typedef();
        out.close_brace(!is_typedef);
        if is_typedef {
            write!(out, " {tag_name};");
        }
"""),(EN,"""        if let Some(prim) = size {
            if config.cpp_compatible_c() {
                out.new_line_if_not_start();
                out.write("#ifndef __cplusplus");
            }

            if config.language != Language::Cxx {
                if config.language == Language::C {
                    out.new_line();
                    out.write("#if __STDC_VERSION__ >= 202311L");

                    out.new_line();
                    write!(
                        out,
                        "{} enum {} {};",
                        config.language.typedef(),
                        tag_name,
                        tag_name
                    );

                    out.new_line();
                    out.write("#else");
                }

                out.new_line();
                write!(out, "{} {} {};", config.language.typedef(), prim, tag_name);

                if config.language == Language::C {
                    out.new_line();
                    out.write("#endif // __STDC_VERSION__ >= 202311L");
                }
            }

            if config.cpp_compatible_c() {
                out.new_line_if_not_start();
                out.write("#endif // __cplusplus");
            }
        }
""","""        if let Some(prim) = size {
            Self::write_sized_typedef(config, out, prim, tag_name);
        }
"""),(EN,"""    /// The code here mirrors the beginning of `Struct::write` and `Union::write`.""","""    fn write_sized_typedef<F: Write>(
        config: &Config,
        out: &mut SourceWriter<F>,
        prim: &str,
        tag_name: &str,
    ) {
        let guard_cxx = config.cpp_compatible_c();
        if guard_cxx {
            out.new_line_if_not_start();
            out.write("#ifndef __cplusplus");
        }

        match config.language {
            Language::Cxx => {}
            Language::C => {
                out.new_line();
                out.write("#if __STDC_VERSION__ >= 202311L");

                out.new_line();
                let typedef = config.language.typedef();
                write!(out, "{typedef} enum {tag_name} {tag_name};");

                out.new_line();
                out.write("#else");

                out.new_line();
                write!(out, "{typedef} {prim} {tag_name};");

                out.new_line();
                out.write("#endif // __STDC_VERSION__ >= 202311L");
            }
            Language::Cython => {
                out.new_line();
                write!(out, "{} {} {};", config.language.typedef(), prim, tag_name);
            }
        }

        if guard_cxx {
            out.new_line_if_not_start();
            out.write("#endif // __cplusplus");
        }
    }

    /// The code here mirrors the beginning of `Struct::write` and `Union::write`.""")]),
# variant fields: continue form
("variantfields","ALL","ok",[(EN,"""            if let VariantBody::Body {
                ref body,
                inline: false,
                ..
            } = variant.body
            {
                out.new_line();
                out.new_line();
                let condition = variant.cfg.to_condition(config);
                // Cython doesn't support conditional enum variants.
                if config.language != Language::Cython {
                    condition.write_before(config, out);
                }
                language_backend.write_struct(out, body);
                if config.language != Language::Cython {
                    condition.write_after(config, out);
                }
            }""","""            let body = match &variant.body {
                VariantBody::Body { body, inline, .. } if !*inline => body,
                _ => continue,
            };
            out.new_line();
            out.new_line();
            // Cython doesn't support conditional enum variants.
            let condition = if config.language == Language::Cython {
                None
            } else {
                variant.cfg.to_condition(config)
            };
            condition.write_before(config, out);
            language_backend.write_struct(out, body);
            condition.write_after(config, out);""")]),
# eq switch shared
("enumswitch","ALL","ok",[(EN,"""            let mut exhaustive = true;
            for variant in &self.variants {
                if let VariantBody::Body {
                    ref name, ref body, ..
                } = variant.body
                {
                    let condition = variant.cfg.to_condition(config);
                    condition.write_before(config, out);
                    write!(
                        out,
                        "case {}::{}: {}.~{}(); break;",
                        self.tag.as_ref().unwrap(),
                        variant.export_name,
                        name,
                        body.export_name(),
                    );
                    condition.write_after(config, out);
                    out.new_line();
                } else {
                    exhaustive = false;
                }
            }
            if !exhaustive {""","""            let tag = self.tag.as_ref().unwrap();
            for variant in &self.variants {
                let (name, body) = match variant.body {
                    VariantBody::Body {
                        ref name, ref body, ..
                    } => (name, body),
                    VariantBody::Empty(..) => continue,
                };
                let condition = variant.cfg.to_condition(config);
                condition.write_before(config, out);
                let variant_name = &variant.export_name;
                let ty = body.export_name();
                write!(out, "case {tag}::{variant_name}: {name}.~{ty}(); break;");
                condition.write_after(config, out);
                out.new_line();
            }
            let has_empty = self
                .variants
                .iter()
                .any(|v| matches!(v.body, VariantBody::Empty(..)));
            if has_empty {""")]),
# literal struct writer: fields resolved up front
("litstruct","ALL","ok",[(CY,"""                let mut is_first_field = true;
                // In C++, same order as defined is required.
                let ordered_fields = out.bindings().struct_field_names(path);
                for ordered_key in ordered_fields.iter() {
                    if let Some(lit) = fields.get(ordered_key) {
                        if !is_first_field {
                            write!(out, ", ");
                        } else {
                            is_first_field = false;
                        }
                        self.write_literal(out, &lit.value);
                    }
                }""","""                // In C++, same order as defined is required.
                let ordered_fields = out.bindings().struct_field_names(path);
                let present = ordered_fields.iter().filter_map(|key| fields.get(key));
                for (i, lit) in present.enumerate() {
                    if i > 0 {
                        write!(out, ", ");
                    }
                    self.write_literal(out, &lit.value);
                }""")]),
# constants: associated name helper
("constname","ALL","ok",[(CO,"""        } else {
            let associated_name = match associated_to_struct {
                Some(s) => {
                    let name = s.export_name();
                    let rules = s
                        .annotations
                        .parse_atom::<RenameRule>("rename-associated-constant");
                    let rules = rules
                        .as_ref()
                        .unwrap_or(&config.structure.rename_associated_constant);

                    if let Some(r) = rules.not_none() {
                        r.apply(name, IdentifierType::Type)
                    } else {
                        Cow::Borrowed(name)
                    }
                }
                None => {
                    let mut name = self.associated_to.as_ref().unwrap().name().to_owned();
                    config.export.rename(&mut name);
                    Cow::Owned(name)
                }
            };

            Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
        };""","""        } else {
            let associated_name = self.associated_name(config, associated_to_struct);
            Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
        };"""),(CO,"""    pub fn write<F: Write, LB: LanguageBackend>(
        &self,
        config: &Config,
        language_backend: &mut LB,
        out: &mut SourceWriter<F>,
        associated_to_struct: Option<&Struct>,""","""    fn associated_name(&self, config: &Config, associated_to_struct: Option<&Struct>) -> String {
        let Some(s) = associated_to_struct else {
            let mut name = self.associated_to.as_ref().unwrap().name().to_owned();
            config.export.rename(&mut name);
            return name;
        };
        let own_rule = s
            .annotations
            .parse_atom::<RenameRule>("rename-associated-constant");
        let rule = own_rule
            .as_ref()
            .unwrap_or(&config.structure.rename_associated_constant);
        match rule.not_none() {
            Some(r) => r.apply(s.export_name(), IdentifierType::Type).into_owned(),
            None => s.export_name().to_owned(),
        }
    }

    pub fn write<F: Write, LB: LanguageBackend>(
        &self,
        config: &Config,
        language_backend: &mut LB,
        out: &mut SourceWriter<F>,
        associated_to_struct: Option<&Struct>,""")]),
# function layout: attributes loop
("fnlayout","ALL","ok",[(LB,"""        } else {
            if let Some(ref prefix) = prefix {
                write!(out, "{prefix}");
                write_space(layout, out);
            }
            if func.annotations.must_use(config) {
                if let Some(ref anno) = config.function.must_use {
                    write!(out, "{anno}");
                    write_space(layout, out);
                }
            }
            if let Some(note) = func
                .annotations
                .deprecated_note(config, DeprecatedNoteKind::Function)
            {
                write!(out, "{note}");
                write_space(layout, out);
            }
        }""","""        } else {
            let must_use = if func.annotations.must_use(config) {
                config.function.must_use.as_deref()
            } else {
                None
            };
            let note = func
                .annotations
                .deprecated_note(config, DeprecatedNoteKind::Function);
            for attr in [prefix.as_deref(), must_use, note.as_deref()]
                .into_iter()
                .flatten()
            {
                write!(out, "{attr}");
                write_space(layout, out);
            }
        }""")]),
# globals wrapper: early return
("globals","ALL","ok",[(CL,"""        if !b.functions.is_empty() || !b.globals.is_empty() {
            self.write_functions_default(out, b);
""","""        let has_decls = !(b.functions.is_empty() && b.globals.is_empty());
        if has_decls {
            self.write_functions_default(out, b);
"""),(CL,"""        if !b.functions.is_empty() || !b.globals.is_empty() {
            if b.config.cpp_compatible_c() {
                out.new_line_if_not_start();""","""        if !(b.functions.is_empty() && b.globals.is_empty()) {
            if b.config.cpp_compatible_c() {
                out.new_line_if_not_start();""")]),
# symfile formatting
("symfile","ALL","ok",[(BI,"""            symbol_file""","""            let symbol_file = &mut *symbol_file;
            symbol_file""")]) if False else ("noop","ALL","ok",[(BI,"use std::fs","use std::fs")]),
# Type::Ptr constness helper in static
("static","ALL","ok",[(CL,"""        if let Type::Ptr { is_const: true, .. } = s.ty {
        } else if !s.mutable {
            out.write("const ");
        }
        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
        out.write(";");""","""        let pointee_const = matches!(s.ty, Type::Ptr { is_const: true, .. });
        if !pointee_const && !s.mutable {
            out.write("const ");
        }
        let Static { ty, export_name, .. } = s;
        cdecl::write_field(self, out, ty, export_name, self.config);
        out.write(";");""")]),
# struct body
("structw","ALL","ok",[(CL,"""        if self.generate_typedef() {
            out.close_brace(false);
            write!(out, " {};", s.export_name());
        } else {
            out.close_brace(true);
        }

        for constant in &s.associated_constants {""","""        let is_typedef = self.generate_typedef();
        out.close_brace(!is_typedef);
        if is_typedef {
            write!(out, " {};", s.export_name());
        }

        for constant in s.associated_constants.iter() {"""),(CL,"""        // Emit the pre_body section, if relevant
        if let Some(body) = self.config.export.pre_body(&s.path) {
            out.write_raw_block(body);
            out.new_line();
        }

        out.write_vertical_source_list(self, &s.fields""","""        // Emit the pre_body section, if relevant
        let pre_body = self.config.export.pre_body(&s.path);
        if let Some(body) = pre_body {
            out.write_raw_block(body);
            out.new_line();
        }

        out.write_vertical_source_list(self, &s.fields""")]),
]
