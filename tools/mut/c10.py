EN="src/bindgen/ir/enumeration.rs"; CL="src/bindgen/language_backend/clike.rs"; CY="src/bindgen/language_backend/cython.rs"; MO="src/bindgen/language_backend/mod.rs"; CO="src/bindgen/ir/constant.rs"; WR="src/bindgen/writer.rs"
M=[
("wrap_tag_lang","C10","bad",[(EN,"        if wrap_tag {\n            out.close_brace(true);","        if wrap_tag && size.is_none() {\n            out.close_brace(true);")]),
("tag_refactor","C10,C09","ok",[(EN,"        let wrap_tag = inline_tag_field && config.language == Language::Cxx;\n","        let wrap_tag = match config.language {\n            Language::Cxx => inline_tag_field,\n            _ => false,\n        };\n")]),
("ns_cond","C10","bad",[(CL,"""        out.new_line();
        if self.config.cpp_compatible_c() {
            out.write("#endif  // __cplusplus");""","""        out.new_line();
        if self.config.cpp_compatible_c() && open {
            out.write("#endif  // __cplusplus");""")]),
("ns_early","C10","bad",[(CL,"        if namespaces.is_empty() {\n            return;\n        }\n\n        if !open","        if namespaces.is_empty() || (!open && self.config.no_includes) {\n            return;\n        }\n\n        if !open")]),
("footer","C10","bad",[(CL,"""    fn write_footers<W: Write>(&mut self, out: &mut SourceWriter<W>) {""","""    fn write_footers<W: Write>(&mut self, out: &mut SourceWriter<W>) {
        if self.config.no_includes { return; }""")]),
("externc_fns","C10","bad",[(CL,"""        if !b.functions.is_empty() || !b.globals.is_empty() {
            self.write_functions_default""","""        if !b.functions.is_empty() || (!b.globals.is_empty() && !b.config.no_includes) {
            self.write_functions_default""")]),
("loop_continue","C10","bad",[(EN,"                write_attrs!(\"constructor\");","                if variant.documentation.doc_comment.len() == 7 { continue; }\n                write_attrs!(\"constructor\");")]),
("brace_helper","ALL","ok",[(EN,"        if wrap_tag {\n            out.close_brace(true);\n        }","        close_if(out, wrap_tag);"),(EN,"/// Names of","/// Names of") if False else (EN,"impl Enum {\n    /// Emit the tag enum","fn close_if<F: Write>(out: &mut SourceWriter<F>, yes: bool) {\n    if yes {\n        out.close_brace(true);\n    }\n}\n\nimpl Enum {\n    /// Emit the tag enum")]),
("loop_rewrite","ALL","ok",[(EN,"        for variant in &self.variants {\n            if let VariantBody::Body {\n                ref body,\n                inline: false,\n                ..\n            } = variant.body\n            {","        let mut i = 0;\n        while i < self.variants.len() {\n            let variant = &self.variants[i];\n            i += 1;\n            if let VariantBody::Body {\n                ref body,\n                inline: false,\n                ..\n            } = variant.body\n            {")]),
("early_continue","ALL","ok",[(EN,"""            if let VariantBody::Body {
                ref body,
                inline: false,
                ..
            } = variant.body
            {
                out.new_line();
                out.new_line();
                let condition = variant.cfg.to_condition(config);
                // Cython doesn't support conditional enum variants.
                if config.language != Language::Cython {
                    condition.write_before(config, out);
                }
                language_backend.write_struct(out, body);
                if config.language != Language::Cython {
                    condition.write_after(config, out);
                }
            }
""","""            let body = match variant.body {
                VariantBody::Body { ref body, inline: false, .. } => body,
                _ => continue,
            };
            out.new_line();
            out.new_line();
            let condition = variant.cfg.to_condition(config);
            if config.language == Language::Cython {
                language_backend.write_struct(out, body);
                continue;
            }
            condition.write_before(config, out);
            language_backend.write_struct(out, body);
            condition.write_after(config, out);
""")]),
]
