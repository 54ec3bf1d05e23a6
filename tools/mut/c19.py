BU="src/bindgen/builder.rs"
M=[
("wrongfield","C19","bad",[(BU,"self.config.trailer = Some(String::from(trailer.as_ref()));","self.config.after_includes = Some(String::from(trailer.as_ref()));")]),
("replace","C19","bad",[(BU,"self.config.includes.push(String::from(include.as_ref()));","self.config.includes = vec![String::from(include.as_ref())];")]),
("extra","C19","bad",[(BU,"self.config.cpp_compat = cpp_compat;","self.config.cpp_compat = cpp_compat;\n        self.config.language = Language::C;")]),
("cond","C19","bad",[(BU,"self.config.tab_width = tab_width;","if tab_width < self.config.line_length {\n            self.config.tab_width = tab_width;\n        }")]),
("neg","C19","bad",[(BU,"self.config.documentation = documentation;","self.config.documentation = !documentation;")]),
("or","C19","bad",[(BU,"self.config.pragma_once = pragma_once;","self.config.pragma_once |= pragma_once;")]),
("trim","C19","bad",[(BU,"self.config.header = Some(String::from(header.as_ref()));","self.config.header = Some(String::from(header.as_ref().trim()));")]),
("skip","C19","bad",[(BU,"self.config.parse.exclude = exclude.iter().map","self.config.parse.exclude = exclude.iter().filter(|x| !x.as_ref().is_empty()).map")]),
("swap","C19","bad",[(BU,".insert(String::from(from.as_ref()), String::from(to.as_ref()));",".insert(String::from(to.as_ref()), String::from(from.as_ref()));")]),
("key","C19","bad",[(BU,'.insert(format!("{key} = {value}")','.insert(format!("{value} = {key}")')]),
("key2","C19","bad",[(BU,'format!("target_os = {platform}")','format!("target = {platform}")')]),
("cfgpart","C19","bad",[(BU,"        self.config = config;\n","        let defines = std::mem::take(&mut self.config.defines);\n        self.config = config;\n        self.config.defines.extend(defines);\n")]),
("newb","C19","bad",[(BU,"        self.config.style = style;\n        self","        let mut b = Builder::new();\n        b.config = self.config;\n        b.srcs = self.srcs;\n        b.lib = self.lib;\n        b.config.style = style;\n        b")]),
("srcfirst","C19","bad",[(BU,"        for x in &self.srcs {","        for x in self.srcs.iter().take(1) {")]),
("srcif","C19","bad",[(BU,"        for x in &self.srcs {\n            result","        for x in &self.srcs {\n            if self.lib.is_some() {\n                continue;\n            }\n            result")]),
("loadflags","C19","bad",[(BU,"                self.config.parse.clean,\n                self.config.only_target_dependencies,","                self.config.only_target_dependencies,\n                self.config.parse.clean,")]),
("lockdrop","C19","bad",[(BU,"let lockfile = self.lockfile.as_deref();","let lockfile = if self.config.parse.parse_deps { self.lockfile.as_deref() } else { None };")]),
("stdoff","C19","bad",[(BU,"        if self.std_types {","        if self.std_types || self.srcs.is_empty() {")]),
("namedrop","C19","bad",[(BU,"            Some(String::from(binding_lib_name.as_ref())),","            Some(String::from(binding_lib_name.as_ref())).filter(|_| self.lockfile.is_none()),")]),
("nomerge","C19","bad",[(BU,"            result.extend_with(&parser::parse_src(x, &self.config)?);","            result = parser::parse_src(x, &self.config)?;")]),
# refactorings
("r-helper","ALL","ok",[(BU,"impl Builder {","fn strings<S: AsRef<str>>(list: &[S]) -> Vec<String> {\n    list.iter().map(|x| x.as_ref().to_owned()).collect()\n}\n\nimpl Builder {\n    fn config_mut(&mut self) -> &mut Config {\n        &mut self.config\n    }\n"),
  (BU,"self.config.parse.exclude = exclude.iter().map(|x| String::from(x.as_ref())).collect();","self.config_mut().parse.exclude = strings(exclude);"),
  (BU,"self.config.header = Some(String::from(header.as_ref()));","self.config_mut().header = Some(header.as_ref().to_string());"),
  (BU,"self.config.includes.push(String::from(include.as_ref()));","let includes = &mut self.config_mut().includes;\n        includes.push(include.as_ref().into());")]),
("r-loop","ALL","ok",[(BU,"        self.config.parse.expand.crates = expand.iter().map(|x| String::from(x.as_ref())).collect();","        let mut crates = Vec::with_capacity(expand.len());\n        for x in expand {\n            crates.push(x.as_ref().to_owned());\n        }\n        self.config.parse.expand.crates = crates;"),
  (BU,"        self.config.pragma_once = pragma_once;\n        self","        let Builder { mut config, srcs, lib, lib_cargo, std_types, lockfile } = self;\n        config.pragma_once = pragma_once;\n        Builder { config, srcs, lib, lib_cargo, std_types, lockfile }"),
  (BU,"    pub fn with_config(mut self, config: Config) -> Builder {\n        self.config = config;\n        self","    pub fn with_config(self, config: Config) -> Builder {\n        Builder { config, ..self }"),
  (BU,"        self.config.defines.insert(\n            format!(\"target_os = {platform}\"),\n            preprocessor_define.to_owned(),\n        );\n        self","        self.with_define(\"target_os\", platform, preprocessor_define)"),
  (BU,"pub fn with_target_os_define(mut self","pub fn with_target_os_define(self")]),
("r-generate","ALL","ok",[(BU,"        for x in &self.srcs {\n            result.extend_with(&parser::parse_src(x, &self.config)?);\n        }","        for x in self.srcs.iter() {\n            let parsed = parser::parse_src(x, &self.config)?;\n            result.extend_with(&parsed);\n        }"),
 (BU,"        if let Some((lib_dir, binding_lib_name)) = self.lib.clone() {\n            let lockfile = self.lockfile.as_deref();\n\n            let cargo = Cargo::load(\n                &lib_dir,\n                lockfile,\n                binding_lib_name.as_deref(),","        if let Some((ref lib_dir, ref binding_lib_name)) = self.lib {\n            let cargo = Cargo::load(\n                lib_dir,\n                self.lockfile.as_deref(),\n                binding_lib_name.as_ref().map(|s| s.as_str()),")]),
("r-gen2","ALL","ok",[(BU,"        if let Some((lib_dir, binding_lib_name)) = self.lib.clone() {","        let cargo = self.find_cargo()?;\n        if let Some(cargo) = cargo {\n            result.extend_with(&parser::parse_lib(cargo, &self.config)?);\n        }\n        /*"),
 (BU,"        result.source_files.extend_from_slice(self.srcs.as_slice());","        */\n        result.source_files.extend_from_slice(self.srcs.as_slice());"),
 (BU,"                /* existing_metadata = */ None,","                None,"),
 (BU,"    pub fn generate(self)","""    fn find_cargo(&self) -> Result<Option<Cargo>, Error> {
        match self.lib {
            Some((ref dir, ref name)) => Ok(Some(Cargo::load(
                dir,
                self.lockfile.as_deref(),
                name.as_deref(),
                self.config.parse.parse_deps,
                self.config.parse.clean,
                self.config.only_target_dependencies,
                None,
            )?)),
            None => Ok(self.lib_cargo.clone()),
        }
    }

    pub fn generate(self)""")]),
]
