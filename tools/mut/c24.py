exec(open("/verif/tools/mut/c23.py").read().split("M=[")[0])
M=[
("no-globals","C24","bad",[(LI,"""        self.globals
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
""","")]),
("inv","C24","bad",[(LI,"""        self.unions
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
""","""        self.unions
            .filter(|x| config.export.exclude.iter().all(|y| y != x.path().name()));
""")]),
("exportname","C24","bad",[(LI,"""        self.typedefs
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
""","""        self.typedefs
            .filter(|x| config.export.include.iter().any(|y| y == x.path().name()));
""")]),
("early","C24","bad",[(LI,"""        self.remove_excluded();
        if self""","""        if self"""),(LI,"""        if self.config.language != Language::Cxx {
            self.instantiate_monomorphs();""","""        self.remove_excluded();
        if self.config.language != Language::Cxx {
            self.instantiate_monomorphs();""")]),
("cond","C24","bad",[(LI,"""        self.remove_excluded();
""","""        if self.config.language != Language::Cython {
            self.remove_excluded();
        }
""")]),
("wrongkind","C24","bad",[(LI,"find!(unions, Unions);","find!(unions, Structs);")]),
("globkind","C24","bad",[(LI,"self.config.export.should_generate(ItemType::Globals)","self.config.export.should_generate(ItemType::Constants)")]),
("sgen","C24","bad",[(CG,"self.item_types.is_empty() || self.item_types.contains(&item_type)","self.item_types.contains(&item_type)")]),
("mark-glob","C24","bad",[(LB,"""            if !global.annotations.should_export() {
                continue;
            }
""","")]),
("mark-sym","C24","bad",[(BI,"""            .globals
            .iter()
            .filter(|s| s.annotations.should_export())
""","""            .globals
            .iter()
""")]),
("mark-const","C24","bad",[(CO,"""        if !self.annotations.should_export() {
            return;
        }

        if !self.value""","""        if !self.value""")]),
("mark-decl","C24","bad",[(CO,"""        if !self.annotations.should_export() {
            return;
        }

        let condition""","""        let condition""")]),
("mark-inv","C24","bad",[(AN,"""!self.bool("no-export").unwrap_or(false)""","""!self.bool("no-export").unwrap_or(true)""")]),
("itemfilter","C24","bad",[(IT,"""                items.retain(|item| !callback(item));
                !items.is_empty()""","""                !items.iter().any(&callback)""")]),
("itemfilter2","C24","bad",[(IT,"""            ItemValue::Single(ref item) => !callback(item),
        });""","""            ItemValue::Single(_) => true,
        });""")]),
("getitems","C24","bad",[(DE,"let Some(items) = library.get_items(path) else {","let Some(items) = library.get_items(path).or_else(|| library.any_items(path)) else {"),(LI,"    pub fn get_config","    pub fn any_items(&self, p: &Path) -> Option<Vec<ItemContainer>> {\n        self.typedefs.get_items(p)\n    }\n\n    pub fn get_config")]),
("r-closure","C24","ok",[(LI,"""        let config = &self.config;
        // FIXME: interpret `config.export.exclude` as `Path`s.
        self.functions
            .retain(|x| !config.export.exclude.iter().any(|y| y == x.path().name()));
        self.enums
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));""","""        let config = &self.config;
        let excluded = |path: &Path| config.export.exclude.iter().any(|y| y == path.name());
        // FIXME: interpret `config.export.exclude` as `Path`s.
        self.functions.retain(|x| !excluded(x.path()));
        self.enums.filter(|x| excluded(x.path()));""")]),
("r-fn","C24","ok",[(LI,"""        self.unions
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
        self.opaque_items
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));""","""        drop_excluded(&mut self.unions, config);
        drop_excluded(&mut self.opaque_items, config);"""),(LI,"""impl Library {
""","""fn drop_excluded<T: Item + Clone>(map: &mut ItemMap<T>, config: &Config) {
    map.filter(|x| {
        for name in &config.export.exclude {
            if name == x.path().name() {
                return true;
            }
        }
        false
    });
}

impl Library {
""")]),
("r-contains","C24","ok",[(LI,"""        self.structs
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));""","""        self.structs
            .filter(|x| config.export.exclude.contains(&x.path().name().to_owned()));""")]),
("r-items","C24","ok",[(LB,"""        for item in &b.items {
            if !item.deref().annotations().should_export() {
                continue;
            }

            out""","""        let exported = b
            .items
            .iter()
            .filter(|item| item.deref().annotations().should_export());
        for item in exported {
            out"""),(LB,"""        for function in &b.functions {
            if !function.annotations.should_export() {
                continue;
            }
            out.new_line_if_not_start();
            self.write_function(&b.config, out, function);
            out.new_line();
        }""","""        for function in &b.functions {
            if function.annotations.should_export() {
                out.new_line_if_not_start();
                self.write_function(&b.config, out, function);
                out.new_line();
            }
        }""")]),
("r-sym","C24","ok",[(BI,"""        let function_names = self
            .functions
            .iter()
            .filter(|f| f.annotations.should_export())
            .map(|f| f.path().name());""","""        let function_names = self.functions.iter().filter_map(|f| {
            if f.annotations.should_export() {
                Some(f.path().name())
            } else {
                None
            }
        });""")]),
("r-getitems","C24","ok",[(LI,"""        find!(enums, Enums);
        find!(structs, Structs);""","""        let export = &self.config.export;
        if export.should_generate(ItemType::Enums) {
            let found = self.enums.get_items(p);
            if found.is_some() {
                return found;
            }
        }
        find!(structs, Structs);""")]),
("r-constvec","C24","ok",[(LI,"""        let functions = if self.config.export.should_generate(ItemType::Functions) {
            self.functions
        } else {
            vec![]
        };
""","""        let mut functions = self.functions;
        if !self.config.export.should_generate(ItemType::Functions) {
            functions = Vec::new();
        }
""")]),
("r-constguard","C24","ok",[(CO,"""        if !self.annotations.should_export() {
            return;
        }

        if !self.value""","""        if !self.value"""),(CO,"""        if !self.annotations.should_export() {
            return;
        }

        let condition""","""        if !self.annotations.should_export() {
            return;
        }
        let condition"""),(CO,"        if let Some(assoc) = associated_to_struct {\n            if assoc.is_generic() {\n                return;","        if let Some(assoc) = associated_to_struct {\n            if assoc.is_generic() || !self.annotations.should_export() {\n                return;"),(LB,"            if constant.uses_only_primitive_types() {","            if constant.uses_only_primitive_types() && constant.annotations.should_export() {"),(LB,"            if !constant.uses_only_primitive_types() {","            if !constant.uses_only_primitive_types() && constant.annotations.should_export() {")]),
]
