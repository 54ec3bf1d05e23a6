C="src/bindgen/config.rs"; R="src/bindgen/rename.rs"; MD="src/bindgen/mod.rs"
DENY='#[serde(rename_all = "snake_case")]\n#[serde(deny_unknown_fields)]\n#[serde(default)]\n'
M=[
("deny","C16","bad",[(C,DENY+"pub struct MangleConfig",DENY.replace("#[serde(deny_unknown_fields)]\n","")+"pub struct MangleConfig")]),
("denyroot","C16","bad",[(C,DENY+"pub struct CythonConfig",DENY.replace("#[serde(deny_unknown_fields)]\n","")+"pub struct CythonConfig")]),
("alias","C16","bad",[(C,"    pub aligned_n: Option<String>,","    #[serde(rename = \"aligned\")]\n    pub aligned_n: Option<String>,")]),
("skip","C16","bad",[(C,"    pub no_return: Option<String>,\n}","    #[serde(skip)]\n    pub no_return: Option<String>,\n}")]),
("defexp","C16","bad",[(C,"            default_features: true,\n            features: None,\n            profile: Profile::Debug,\n        }\n    }\n}","            default_features: false,\n            features: None,\n            profile: Profile::Debug,\n        }\n    }\n}")]),
("listexp","C16","bad",[(C,"                all_features: true,","                all_features: false,")]),
("listprof","C16","bad",[(C,"                features: None,\n                profile: Profile::Debug,","                features: None,\n                profile: Profile::Release,")]),
("defenum","C16","bad",[(C,"rename_variant_name_fields: RenameRule::SnakeCase,","rename_variant_name_fields: RenameRule::None,")]),
("defstyle","C16","bad",[(C,"            \"debug\" | \"Debug\" => Ok(Profile::Debug),\n            \"release\" | \"Release\" =>","            \"debug\" | \"Debug\" | \"Release\" => Ok(Profile::Debug),\n            \"release\" =>")]),
("lend","C16","bad",[(C,"            \"cr\" => Ok(Self::CR),","            \"cr\" => Ok(Self::CRLF),")]),
("case","C16","bad",[(C,"        match s.to_lowercase().as_ref() {\n            \"short\"","        match s {\n            \"short\"")]),
("fallback","C16","bad",[(C,"            _ => return Err(format!(\"Unrecognized sort option: '{s}'.\")),","            \"\" => None,\n            _ => return Err(format!(\"Unrecognized sort option: '{s}'.\")),")]),
("prefix","C16","bad",[(R,"const PREFIX_LEN: usize = PREFIX.len();","const PREFIX_LEN: usize = PREFIX.len() - 1;")]),
("gecko","C16","bad",[(R,"            \"SnakeCase\" => Ok(RenameRule::SnakeCase),","            \"SnakeCase\" => Ok(RenameRule::ScreamingSnakeCase),")]),
("trim","C16","bad",[(MD,"match v.parse::<$name>()","match v.trim().parse::<$name>()")]),
("rootexists","C16","bad",[(C,"        if c.exists() {","        if c.exists() && root.as_ref().join(\"Cargo.toml\").exists() {")]),
("lossy","C16","bad",[(C,"""        let mut config = toml::from_str::<Config>(&config_text)
            .map_err(|e| format!("Couldn't parse config file: {e}."))?;""","""        let mut config = toml::from_str::<Config>(&config_text).unwrap_or_default();""")]),
("fielddefault","C16","bad",[(C,"    pub renaming_overrides_prefixing: bool,","    #[serde(default = \"yes\")]\n    pub renaming_overrides_prefixing: bool,"),(C,"impl ExportConfig {","fn yes() -> bool {\n    true\n}\n\nimpl ExportConfig {")]),
("r-or","C16,C18","ok",[(C,"""            "cxx" => Ok(Language::Cxx),
            "Cxx" => Ok(Language::Cxx),
            "CXX" => Ok(Language::Cxx),
            "cpp" => Ok(Language::Cxx),
            "Cpp" => Ok(Language::Cxx),
            "CPP" => Ok(Language::Cxx),
            "c++" => Ok(Language::Cxx),
            "C++" => Ok(Language::Cxx),""","""            "cxx" | "Cxx" | "CXX" | "cpp" | "Cpp" | "CPP" | "c++" | "C++" => Ok(Language::Cxx),""")]),
("r-q","C16","ok",[(MD,"""                        match v.parse::<$name>() {
                            Ok(v) => Ok(v),
                            Err(m) => Err(E::custom(m)),
                        }""","""                        v.parse::<$name>().map_err(E::custom)""")]),
("r-strip","C16","ok",[(R,"""            s if s.starts_with(PREFIX) => Ok(RenameRule::Prefix(s[PREFIX_LEN..].to_string())),

            _ => Err(format!("Unrecognized RenameRule: '{s}'.")),""","""            _ => match s.strip_prefix(PREFIX) {
                Some(rest) => Ok(RenameRule::Prefix(rest.to_string())),
                None => Err(format!("Unrecognized RenameRule: '{s}'.")),
            },"""),(R,"        const PREFIX_LEN: usize = PREFIX.len();\n","")]),
("r-ok","C16","ok",[(C,"""        match s.to_lowercase().as_ref() {
            "short" => Ok(DocumentationLength::Short),
            "full" => Ok(DocumentationLength::Full),
            _ => Err(format!("Unrecognized documentation style: '{s}'.")),
        }""","""        let lower = s.to_lowercase();
        let length = match lower.as_str() {
            "short" => DocumentationLength::Short,
            "full" => DocumentationLength::Full,
            _ => return Err(format!("Unrecognized documentation style: '{s}'.")),
        };
        Ok(length)""")]),
("r-default","C16,C19","ok",[(C,"""            parse: ParseConfig::default(),
            export: ExportConfig::default(),""","""            parse: Default::default(),
            export: Default::default(),""")]),
("r-table","C16","ok",[(C,"""        match s {
            "SameLine" => Ok(Braces::SameLine),
            "same_line" => Ok(Braces::SameLine),
            "NextLine" => Ok(Braces::NextLine),
            "next_line" => Ok(Braces::NextLine),
            _ => Err(format!("Unrecognized Braces: '{s}'.")),
        }""","""        if s == "SameLine" || s == "same_line" {
            Ok(Braces::SameLine)
        } else if matches!(s, "NextLine" | "next_line") {
            Ok(Braces::NextLine)
        } else {
            Err(format!("Unrecognized Braces: '{s}'."))
        }""")]),
("r-derive","C16","ok",[(C,"""impl Default for ConstantConfig {
    fn default() -> ConstantConfig {
        ConstantConfig {
            allow_static_const: true,
            allow_constexpr: true,
            sort_by: None,
        }
    }
}""","""impl Default for ConstantConfig {
    fn default() -> Self {
        let on = true;
        Self {
            sort_by: Default::default(),
            allow_static_const: on,
            allow_constexpr: on,
        }
    }
}""")]),
("r-file","C16,C20","ok",[(C,"""        let mut config = toml::from_str::<Config>(&config_text)
            .map_err(|e| format!("Couldn't parse config file: {e}."))?;
        config.config_path = Some(StdPathBuf::from(file_name.as_ref()));
        Ok(config)""","""        match toml::from_str::<Config>(&config_text) {
            Ok(config) => Ok(Config {
                config_path: Some(StdPathBuf::from(file_name.as_ref())),
                ..config
            }),
            Err(e) => Err(format!("Couldn't parse config file: {e}.")),
        }""")]),
("r-root","C16","ok",[(C,"""        if c.exists() {
            Config::from_file(c).unwrap()
        } else {
            Config::default()
        }""","""        if !c.exists() {
            return Self::default();
        }
        Self::from_file(&c).unwrap()""")]),
]
