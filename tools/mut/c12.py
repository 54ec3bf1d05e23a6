RE="src/bindgen/ir/repr.rs"; ST="src/bindgen/ir/structure.rs"; UN="src/bindgen/ir/union.rs"; EN="src/bindgen/ir/enumeration.rs"; CO="src/bindgen/config.rs"; PA="src/bindgen/parser.rs"; CL="src/bindgen/language_backend/clike.rs"
M=[
("u128","C12","bad",[(RE,"""                ("usize", None) => (IntKind::Size, false),""","""                ("usize", None) => (IntKind::Size, false),
                ("u128", None) => (IntKind::B64, false),""")]),
("ignore-unknown","C12","bad",[(RE,"""                    None => return Err(format!("Unsupported #[repr({path})].")),""","""                    None => {
                        log::warn!("Unsupported #[repr({path})].");
                        continue;
                    }""")]),
("packedn","C12","bad",[(RE,"""                    if args.is_some() {""","""                    if args.as_deref().is_some_and(|n| n.parse::<u64>().is_err()) {""")]),
("conflict","C12","bad",[(RE,"""                    let align = ReprAlign::Packed;
                    // Only permit a single alignment-setting repr.
                    if let Some(old_align) = repr.align {""","""                    let align = ReprAlign::Packed;
                    // Only permit a single alignment-setting repr.
                    if let Some(old_align @ ReprAlign::Packed) = repr.align {""")]),
("anyattr","C12","bad",[(RE,"""attr.path().is_ident("repr"));""","""attr.path().is_ident("repr") || attr.path().is_ident("cfg_attr"));""")]),
("ensure-swap","C12","bad",[(CO,"""            (ReprAlign::Align(_), _, None) => Err(""","""            (ReprAlign::Align(_), None, None) => Err(""")]),
("enum-style","C12","bad",[(EN,"""repr.style == ReprStyle::Rust && repr.ty.is_none()""","""repr.style == ReprStyle::Rust && repr.ty.is_none() && !item.variants.is_empty()""")]),
("enum-align","C12","bad",[(EN,"""        if repr.align.is_some() {""","""        if repr.align == Some(crate::bindgen::ir::repr::ReprAlign::Packed) {""")]),
("union-style","C12","bad",[(UN,"""        if repr.style != ReprStyle::C {""","""        if repr.style == ReprStyle::Rust {""")]),
("struct-noensure","C12","bad",[(ST,"""        if let Some(align) = repr.align {
            layout_config.ensure_safe_to_represent(&align)?;
        }
""","""        if let (Some(align), false) = (repr.align, is_transparent) {
            if let Err(msg) = layout_config.ensure_safe_to_represent(&align) {
                warn!("{}", msg);
            }
        }
""")]),
("union-noensure","C12","bad",[(UN,"""        if let Some(align) = repr.align {
            layout_config.ensure_safe_to_represent(&align)?;
        }
""","""        if let (Some(align), true) = (repr.align, item.fields.named.len() > 1) {
            layout_config.ensure_safe_to_represent(&align)?;
        }
""")]),
("drop-align","C12","bad",[(ST,"""            is_enum_variant_body,
            repr.align,
            is_transparent,""","""            is_enum_variant_body,
            repr.align.filter(|_| !is_transparent),
            is_transparent,""")]),
("transp","C12","bad",[(ST,"""            ReprStyle::Transparent => true,
""","""            ReprStyle::Transparent => item.fields.len() > 1,
""")]),
("enum-err","C12","bad",[(PA,"""                info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                let path = Path::new(item.ident.unraw().to_string());
                self.opaque_items.try_insert(
                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
                );
            }
        }
    }

    /// Loads a `type` declaration""","""                info!("Skip {}::{} - ({}).", crate_name, item.ident, msg);
            }
        }
    }

    /// Loads a `type` declaration""")]),
("w-packed","C12","bad",[(CL,"""                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }

        if s.annotations""","""                    if let Some(ref anno) = self.config.layout.packed {
                        if s.fields.len() > 1 {
                            write!(out, " {anno}");
                        }
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }

        if s.annotations""")]),
("w-union","C12","bad",[(CL,"""        if let Some(align) = u.alignment {
            match align {
                ReprAlign::Packed => {
                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }
""","""        if let Some(ReprAlign::Align(n)) = u.alignment {
            if let Some(ref anno) = self.config.layout.aligned_n {
                write!(out, " {anno}({n})");
            }
        }
""")]),
("r-helper","ALL","ok",[(CL,"""        if let Some(align) = u.alignment {
            match align {
                ReprAlign::Packed => {
                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }
""","""        self.write_alignment(out, u.alignment);
"""),(CL,"""        if let Some(align) = s.alignment {
            match align {
                ReprAlign::Packed => {
                    if let Some(ref anno) = self.config.layout.packed {
                        write!(out, " {anno}");
                    }
                }
                ReprAlign::Align(n) => {
                    if let Some(ref anno) = self.config.layout.aligned_n {
                        write!(out, " {anno}({n})");
                    }
                }
            }
        }
""","""        self.write_alignment(out, s.alignment);
"""),(CL,"""    fn generate_typedef(&self) -> bool {""","""    fn write_alignment<W: Write>(&self, out: &mut SourceWriter<W>, alignment: Option<ReprAlign>) {
        match alignment {
            Some(ReprAlign::Packed) => {
                if let Some(ref anno) = self.config.layout.packed {
                    write!(out, " {anno}");
                }
            }
            Some(ReprAlign::Align(n)) => {
                if let Some(ref anno) = self.config.layout.aligned_n {
                    write!(out, " {anno}({n})");
                }
            }
            None => {}
        }
    }

    fn generate_typedef(&self) -> bool {""")]),
("r-parser","ALL","ok",[(PA,"""        match Struct::load(&config.layout, item, mod_cfg) {
            Ok(st) => {
                info!("Take {}::{}.", crate_name, item.ident);
                self.structs.try_insert(st);
            }
            Err(msg) => {
                info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                let path = Path::new(item.ident.unraw().to_string());
                self.opaque_items.try_insert(
                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
                );
            }
        }
    }
""","""        let msg = match Struct::load(&config.layout, item, mod_cfg) {
            Ok(st) => {
                info!("Take {}::{}.", crate_name, item.ident);
                self.structs.try_insert(st);
                return;
            }
            Err(msg) => msg,
        };
        self.take_opaque(crate_name, mod_cfg, &item.ident, &item.generics, &item.attrs, &msg);
    }

    fn take_opaque(
        &mut self,
        crate_name: &str,
        mod_cfg: Option<&Cfg>,
        ident: &syn::Ident,
        generics: &syn::Generics,
        attrs: &[syn::Attribute],
        msg: &str,
    ) {
        info!("Take {}::{} - opaque ({}).", crate_name, ident, msg);
        let path = Path::new(ident.unraw().to_string());
        self.opaque_items
            .try_insert(OpaqueItem::load(path, generics, attrs, mod_cfg).unwrap());
    }
""")]),
("r-style","ALL","ok",[(ST,"""        let is_transparent = match repr.style {
            ReprStyle::C => false,
            ReprStyle::Transparent => true,
            _ => {
                return Err("Struct is not marked #[repr(C)] or #[repr(transparent)].".to_owned());
            }
        };
""","""        if repr.style == ReprStyle::Rust {
            return Err("Struct is not marked #[repr(C)] or #[repr(transparent)].".to_owned());
        }
        let is_transparent = repr.style == ReprStyle::Transparent;
"""),(ST,"""        if let Some(align) = repr.align {
            layout_config.ensure_safe_to_represent(&align)?;
        }
""","""        repr.align
            .as_ref()
            .map_or(Ok(()), |align| layout_config.ensure_safe_to_represent(align))?;
""")]),
("r-ensure","ALL","ok",[(CO,"""        match (align, &self.packed, &self.aligned_n) {
            (ReprAlign::Packed, None, _) => Err(""","""        let configured = match align {
            ReprAlign::Packed => self.packed.is_some(),
            ReprAlign::Align(_) => self.aligned_n.is_some(),
        };
        if configured {
            return Ok(());
        }
        match align {
            ReprAlign::Packed => Err("""),(CO,"""            (ReprAlign::Align(_), _, None) => Err(""","""            ReprAlign::Align(_) => Err("""),(CO,"""'aligned_n' annotation.".to_string()),
            _ => Ok(()),""","""'aligned_n' annotation.".to_string()),""")]),
("r-reprloop","ALL","ok",[(RE,"""        let mut repr = Repr::default();
        for id in ids {
            let (int_kind, signed) = match (id.0.as_ref(), id.1) {""","""        let mut repr = Repr::default();
        for (name, arg) in ids {
            let (int_kind, signed) = match (name.as_str(), arg) {""")]),
("r-reprfn","ALL","ok",[(RE,"""        for id in ids {
            let (int_kind, signed) = match (id.0.as_ref(), id.1) {""","""        for id in ids {
            let name = id.0;
            if name == "C" && id.1.is_none() {
                repr.style = ReprStyle::C;
                continue;
            }
            let (int_kind, signed) = match (name.as_ref(), id.1) {"""),(RE,"""                ("C", None) => {
                    repr.style = ReprStyle::C;
                    continue;
                }
""","")]),
("r-enum","ALL","ok",[(EN,"""        if repr.style == ReprStyle::Rust && repr.ty.is_none() {
            return Err(""","""        let has_layout = match repr.style {
            ReprStyle::Rust => repr.ty.is_some(),
            _ => true,
        };
        if !has_layout {
            return Err(""")]),
]
