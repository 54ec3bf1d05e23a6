EN="src/bindgen/ir/enumeration.rs"; CL="src/bindgen/language_backend/clike.rs"; CY="src/bindgen/language_backend/cython.rs"; MO="src/bindgen/language_backend/mod.rs"; CO="src/bindgen/ir/constant.rs"; CF="src/bindgen/ir/cfg.rs"
M=[
("docs_outside","C09","bad",[(CL,"""        let condition = t.cfg.to_condition(self.config);
        condition.write_before(self.config, out);

        self.write_documentation(out, &t.documentation);
""","""        let condition = t.cfg.to_condition(self.config);
        self.write_documentation(out, &t.documentation);
        condition.write_before(self.config, out);
""")]),
("early_return","C09,C10","bad",[(CL,"""        self.write_documentation(out, &o.documentation);
""","""        self.write_documentation(out, &o.documentation);
        if o.annotations.bool("stop").unwrap_or(false) { return; }
""")]),
("variant_cfg_enum","C09","bad",[(EN,"""                    let condition = x.cfg.to_condition(config);
                    condition.write_before(config, out);
                    write!(
                        out,
                        "case {}::{}: {}""","""                    let condition = self.cfg.to_condition(config);
                    condition.write_before(config, out);
                    write!(
                        out,
                        "case {}::{}: {}""")]),
("variant_fields_lang","C09,C10","bad",[(EN,"""                    condition.write_before(config, out);
                }
                if *inline {""","""                    condition.write_before(config, out);
                }
                if *inline && false {""") , (EN,"""                if config.language != Language::Cython {
                    condition.write_after(config, out);
                }
            }
        }
    }

    // Emit convenience methods for enums""","""                if config.language == Language::Cxx {
                    condition.write_after(config, out);
                }
            }
        }
    }

    // Emit convenience methods for enums""")]),
("derived_after","C09","bad",[(EN,"""                condition.write_before(config, out);

                let arg_renamer""","""                let arg_renamer""")]),
("before_none","C09","bad",[(CF,"""        if self.is_some() {
            if config.language == Language::Cython {""","""        if self.is_some() || config.cpp_compat {
            if config.language == Language::Cython {""")]),
("helper_guard","ALL","ok",[(CL,"""        let condition = t.cfg.to_condition(self.config);
        condition.write_before(self.config, out);

        self.write_documentation(out, &t.documentation);
""","""        let condition = self.open_guard(out, &t.cfg);

        self.write_documentation(out, &t.documentation);
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn open_guard<W: Write>(&self, out: &mut SourceWriter<W>, cfg: &Option<crate::bindgen::ir::Cfg>) -> Option<crate::bindgen::ir::Condition> {
        let condition = cfg.to_condition(self.config);
        condition.write_before(self.config, out);
        condition
    }

    fn generate_typedef(&self) -> bool {"""),("src/bindgen/ir/cfg.rs","pub enum Condition","pub enum Condition")]),
("body_helper","ALL","ok",[(CL,"""        out.write("extern ");
        if let Type::Ptr { is_const: true, .. } = s.ty {
        } else if !s.mutable {
            out.write("const ");
        }
        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
        out.write(";");

        condition.write_after(self.config, out);
    }
""","""        self.write_static_body(out, s);
        condition.write_after(self.config, out);
    }
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn write_static_body<W: Write>(&mut self, out: &mut SourceWriter<W>, s: &Static) {
        out.write("extern ");
        let is_const_ptr = matches!(s.ty, Type::Ptr { is_const: true, .. });
        if !is_const_ptr && !s.mutable {
            out.write("const ");
        }
        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
        out.write(";");
    }

    fn generate_typedef(&self) -> bool {""")]),
("closure_guard","ALL","ok",[(CL,"""        let condition = o.cfg.to_condition(self.config);
        condition.write_before(self.config, out);

        self.write_documentation(out, &o.documentation);

        o.generic_params.write_with_default(self, self.config, out);

        if self.generate_typedef() {
            write!(
                out,
                "typedef struct {} {};",
                o.export_name(),
                o.export_name()
            );
        } else {
            write!(out, "struct {};", o.export_name());
        }

        condition.write_after(self.config, out);
    }
""","""        self.with_condition(out, &o.cfg, |this, out| {
            this.write_documentation(out, &o.documentation);

            o.generic_params.write_with_default(this, this.config, out);

            if this.generate_typedef() {
                write!(out, "typedef struct {} {};", o.export_name(), o.export_name());
            } else {
                write!(out, "struct {};", o.export_name());
            }
        });
    }
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn with_condition<W: Write, B: FnOnce(&mut Self, &mut SourceWriter<W>)>(&mut self, out: &mut SourceWriter<W>, cfg: &Option<crate::bindgen::ir::Cfg>, body: B) {
        let condition = cfg.to_condition(self.config);
        condition.write_before(self.config, out);
        body(self, out);
        condition.write_after(self.config, out);
    }

    fn generate_typedef(&self) -> bool {""")]),
]
