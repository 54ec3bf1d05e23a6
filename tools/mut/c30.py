C="src/bindgen/ir/cfg.rs"
ANY='''                    0 => None,
                    1 => conditions.into_iter().next(),
                    _ => Some(Condition::Any(conditions)),'''
M=[
("swap","C30","bad",[(C,'meta.path.is_ident("all")','meta.path.is_ident("any_")'),]),
("anyall","C30","bad",[(C,"Ok(Cfg::Any(cfgs.into_iter().collect()))","Ok(if cfgs.len() > 2 { Cfg::All(cfgs.into_iter().collect()) } else { Cfg::Any(cfgs.into_iter().collect()) })")]),
("not","C30","bad",[(C,'''                .to_condition(config)
                .map(|cfg| Condition::Not(Box::new(cfg))),''','''                .to_condition(config)
                .map(|cfg| match cfg { Condition::Not(c) => Condition::Not(c), cfg => Condition::Not(Box::new(cfg)) }),''')]),
("notmissing","C30","bad",[(C,'''            Cfg::Not(ref child) => child
                .to_condition(config)
                .map(|cfg| Condition::Not(Box::new(cfg))),''','''            Cfg::Not(ref child) => match child.to_condition(config) { Some(cfg) => Some(Condition::Not(Box::new(cfg))), None => Some(Condition::Define(child.to_string())) },''')]),
("take","C30","bad",[(C,'''                let cfgs: Vec<_> = children
                    .iter()
''','''                let cfgs: Vec<_> = children
                    .iter().take(8)
''')]),
("prec","C30","bad",[(C,'''            Condition::Any(ref conditions) => {
                out.write("(");''','''            Condition::Any(ref conditions) => {
                if config.language != Language::Cython { out.write("("); }''')]),
("sep","C30","bad",[(C,'''                    if i != 0 {
                        out.write(if config.language == Language::Cython {
                            " and "''','''                    if i > 1 {
                        out.write(if config.language == Language::Cython {
                            " and "''')]),
("sepc","C30","bad",[(C,'" and "','" or "')]),
("named","C30","bad",[(C,"DefineKey::Named(cfg_name, cfg_value) == DefineKey::load(key)",'matches!(DefineKey::load(key), DefineKey::Named(n, _) if n == cfg_name)')]),
("nowarn","C30","bad",[(C,'''                if let Some((_, define)) = define {
                    Some(Condition::Define(define.to_owned()))
                } else {
                    warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                    None
                }
            }
            Cfg::Any''','''                if let Some((_, define)) = define {
                    Some(Condition::Define(define.to_owned()))
                } else {
                    if cfg_name != "feature" { warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",); }
                    None
                }
            }
            Cfg::Any''')]),
("defd","C30","bad",[(C,'out.write("defined(");','out.write("(");')]),
("one","C30","bad",[(C,ANY,'''                    0 => None,
                    1 | 2 => conditions.into_iter().next(),
                    _ => Some(Condition::Any(conditions)),''')]),
("r_split","ALL","ok",[(C,'''                for (i, condition) in conditions.iter().enumerate() {
                    if i != 0 {
                        out.write(if config.language == Language::Cython {
                            " and "
                        } else {
                            " && "
                        });
                    }
                    condition.write(config, out);
                }
''','''                let sep = if config.language == Language::Cython { " and " } else { " && " };
                let mut rest = conditions.iter();
                if let Some(first) = rest.next() {
                    first.write(config, out);
                    for condition in rest {
                        out.write(sep);
                        condition.write(config, out);
                    }
                }
''')]),
("r_fmt","ALL","ok",[(C,'''                    out.write("defined(");
                    write!(out, "{define}");
                    out.write(")");''','''                    write!(out, "defined({define})");''')]),
("r_helper","ALL","ok",[(C,'''                let conditions: Vec<_> = children
                    .iter()
                    .filter_map(|x| x.to_condition(config))
                    .collect();
                match conditions.len() {
'''+ANY+'''
                }''','''                let conditions = translate(children, config);
                if conditions.len() > 1 {
                    return Some(Condition::Any(conditions));
                }
                conditions.into_iter().next()'''),(C,"pub trait ToCondition","fn translate(children: &[Cfg], config: &Config) -> Vec<Condition> {\n    let mut out = Vec::new();\n    for child in children {\n        if let Some(condition) = child.to_condition(config) {\n            out.push(condition);\n        }\n    }\n    out\n}\n\npub trait ToCondition")]),
("r_flag","ALL","ok",[(C,'''                for (i, condition) in conditions.iter().enumerate() {
                    if i != 0 {
                        out.write(if config.language == Language::Cython {
                            " or "''','''                let mut first = true;
                for condition in conditions {
                    if first { first = false; } else {
                        out.write(if config.language == Language::Cython {
                            " or "''')]),
("r_find","ALL","ok",[(C,'''                let define = config
                    .defines
                    .iter()
                    .filter(|(key, ..)| DefineKey::Boolean(cfg_name) == DefineKey::load(key))
                    .min();
                if let Some((_, define)) = define {
                    Some(Condition::Define(define.to_owned()))
                } else {
                    warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                    None
                }''','''                let wanted = DefineKey::Boolean(cfg_name);
                let found = config
                    .defines
                    .iter()
                    .filter(|(key, ..)| wanted == DefineKey::load(key))
                    .min()
                    .map(|(_, define)| Condition::Define(define.clone()));
                if found.is_none() {
                    warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
                }
                found''')]),
]
