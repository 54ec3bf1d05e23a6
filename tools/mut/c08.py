P="src/bindgen/parser.rs"; CF="src/bindgen/ir/cfg.rs"; EN="src/bindgen/ir/enumeration.rs"; FN="src/bindgen/ir/function.rs"; ST="src/bindgen/ir/structure.rs"; CO="src/bindgen/ir/constant.rs"
M=[
("pop_skip","C08","bad",[(P,"""            if let Some((_, ref inline_items)) = item.content {
                // TODO""","""            if matches!(item.content, Some((_, ref i)) if i.is_empty()) {
                continue;
            }
            if let Some((_, ref inline_items)) = item.content {
                // TODO""")]),
("push_late","C08","bad",[(P,"""            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            self.parse_crate(&dep_pkg)?;
""","""            self.parse_crate(&dep_pkg)?;

            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }
""")]),
("impl_cfg","C08","bad",[(P,"""                                    impl_cfg.as_ref(),
""","""                                    if item_impl.generics.params.is_empty() { impl_cfg.as_ref() } else { mod_cfg },
""")]),
("foreign","C08","bad",[(P,"        let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));\n","        let mod_cfg = Cfg::append(mod_cfg, if item.items.len() > 1 { Cfg::load(&item.attrs) } else { None });\n")]),
("field","C08","bad",[(EN,"                        cfg: Cfg::load(&field.attrs),","                        cfg: None,")]),
("append","C08","bad",[(CF,"(Some(parent), Some(child)) => Some(Cfg::All(vec![parent.clone(), child])),","(Some(parent), Some(child)) => Some(Cfg::Any(vec![parent.clone(), child])),")]),
("load_first","C08","bad",[(CF,"            _ => Some(Cfg::All(configs)),","            _ => Some(configs.swap_remove(0)),")]),
("join_last","C08","bad",[(CF,"            Some(Cfg::All(cfgs.to_owned()))","            cfgs.last().cloned()")]),
("opaque_mod","C08","bad",[(P,"""                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
                );
            }
        }
    }

    /// Loads a `union`""","""                    OpaqueItem::load(path, &item.generics, &item.attrs, None).unwrap(),
                );
            }
        }
    }

    /// Loads a `union`""")]),
("macro","C08","bad",[(P,"        let mod_cfg = macro_cfg.as_ref();\n","        let _ = &macro_cfg;\n")]),
("r_stack_helper","ALL","ok",[(P,"""            let cfg = Cfg::load(&item.attrs);
            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            if let Some((_, ref""","""            let cfg = Cfg::load(&item.attrs);
            let has_cfg = cfg.is_some();
            if let Some(cfg) = cfg {
                self.cfg_stack.push(cfg);
            }

            if let Some((_, ref"""),(P,"""            if cfg.is_some() {
                self.cfg_stack.pop();
            }
        }

        Ok(())
    }
}""","""            if has_cfg {
                self.cfg_stack.pop();
            }
        }

        Ok(())
    }
}""")]),
("r_extend","ALL","ok",[(P,"""            if let Some(ref cfg) = cfg {
                self.cfg_stack.push(cfg.clone());
            }

            self.parse_crate(&dep_pkg)?;

            if cfg.is_some() {
                self.cfg_stack.pop();
            }
""","""            match cfg {
                Some(cfg) => {
                    self.cfg_stack.push(cfg);
                    self.parse_crate(&dep_pkg)?;
                    self.cfg_stack.pop();
                }
                None => self.parse_crate(&dep_pkg)?,
            }
""")]),
("r_append_method","ALL","ok",[(FN,"            cfg: Cfg::append(mod_cfg, Cfg::load(attrs)),","            cfg: own_condition(mod_cfg, attrs),"),(FN,"impl Function {","fn own_condition(outer: Option<&Cfg>, attrs: &[syn::Attribute]) -> Option<Cfg> {\n    let own = Cfg::load(attrs);\n    Cfg::append(outer, own)\n}\n\nimpl Function {")]),
("r_append_if","ALL","ok",[(CF,"""        match (parent, child) {
            (None, None) => None,
            (None, Some(child)) => Some(child),
            (Some(parent), None) => Some(parent.clone()),
            (Some(parent), Some(child)) => Some(Cfg::All(vec![parent.clone(), child])),
        }""","""        let parent = match parent {
            Some(parent) => parent,
            None => return child,
        };
        match child {
            Some(child) => Some(Cfg::All(vec![parent.clone(), child])),
            None => Some(parent.clone()),
        }""")]),
("r_load","ALL","ok",[(CF,"""                let cfg = meta.parse_args().ok();

                if let Some(config) = cfg {
                    configs.push(config);
                }""","""                if let Ok(config) = meta.parse_args::<Cfg>() {
                    configs.push(config);
                }"""),(CF,"""        match configs.len() {
            0 => None,
            1 => Some(configs.pop().unwrap()),
            _ => Some(Cfg::All(configs)),
        }""","""        if configs.len() < 2 {
            return configs.pop();
        }
        Some(Cfg::All(configs))""")]),
]
