MA="src/main.rs"; LO="src/logging.rs"; CG="src/bindgen/config.rs"
M=[
("swapflag","C18","bad",[(MA,'    if matches.get_flag("package-version") {\n        config.package_version = true;','    if matches.get_flag("package-version") {\n        config.include_version = true;')]),
("setfalse","C18","bad",[(MA,'        config.cpp_compat = true;','        config.cpp_compat = config.language == bindgen::Language::C;')]),
("always","C18","bad",[(MA,'    if matches.get_flag("cpp-compat") {\n        config.cpp_compat = true;\n    }','    config.cpp_compat = matches.get_flag("cpp-compat");')]),
("fileonly","C18","bad",[(MA,'        apply_config_overrides(&mut config, matches);\n\n        return','        if matches.contains_id("config") {\n            apply_config_overrides(&mut config, matches);\n        }\n\n        return')]),
("early","C18","bad",[(MA,'        Ok(Some(lang)) => {\n            config.language = bindgen::Language::from_str(lang).unwrap();\n','        Ok(Some(lang)) => {\n            config.language = bindgen::Language::from_str(lang).unwrap();\n            config.cpp_compat = false;\n')]),
("styletype","C18","bad",[(MA,'matches.try_get_one::<String>("style")','matches.try_get_one::<String>("lang")')]),
("value","C18","bad",[(MA,'["Debug", "debug", "Release", "release"]','["Debug", "debug", "dev", "Release", "release"]')]),
("pathtype","C18","bad",[(MA,'matches.get_one::<String>("symfile")','matches.get_one::<PathBuf>("symfile")')]),
("long","C18","bad",[(MA,'.long("parse-dependencies")','.long("parse-deps")')]),
("short","C18","bad",[(MA,"                .short('s')","                .short('S')")]),
("load","C18","bad",[(MA,'matches.get_one::<PathBuf>("metadata").map(|p| p.as_path()),','matches.get_one::<PathBuf>("lockfile").map(|p| p.as_path()),')]),
("clean","C18","bad",[(MA,'    lib.set_clean(config.parse.clean);\n',''),(MA,'let mut lib','let lib')]),
("cfgdir","C18","bad",[(MA,'Config::from_root_or_default(binding_crate_dir)','Config::from_root_or_default(input)')]),
("order","C18","bad",[(MA,'''        apply_config_overrides(&mut config, matches);

        return Builder::new()
            .with_config(config)
            .with_src(input)
            .generate();''','''        let builder = Builder::new().with_config(config.clone()).with_src(input);
        apply_config_overrides(&mut config, matches);
        return builder.generate();''')]),
("dep","C18","bad",[(MA,'bindings.generate_depfile(file, depfile);','bindings.generate_depfile(depfile, file);'),(MA,'matches.get_one("depfile")','matches.get_one::<PathBuf>("depfile")')]),
("sym","C18","bad",[(MA,'''            if let Some(symfile) = matches.get_one::<String>("symfile") {''','''            if let Some(symfile) = matches.get_one::<String>("symfile").filter(|_| changed) {''')]),
("level","C18","bad",[(MA,'''            1 => logging::InfoLogger::init().unwrap(),
            _ =>''','''            1 | 2 => logging::InfoLogger::init().unwrap(),
            _ =>''')]),
("logger","C18","bad",[(LO,'log::set_max_level(LevelFilter::Warn);','log::set_max_level(LevelFilter::Error);')]),
("logger2","C18","bad",[(LO,'metadata.level() <= Level::Info','metadata.level() <= Level::Warn')]),
("quiet","C18","bad",[(MA,'if matches.get_flag("quiet") {','if matches.get_flag("quiet") && matches.get_count("v") == 0 {')]),
("verify","C18","bad",[(MA,'if matches.get_flag("verify") && !matches.contains_id("out") {','if matches.get_flag("verify") && !matches.contains_id("out") && !matches.get_flag("quiet") {')]),
("errret","C18","ok",[(MA,'''        Err(_) => {
            error!("Unknown style specified.");
            return;
        }''','''        Err(reason) => {
            error!("{reason}");
            return;
        }''')]),
("r-helper","ALL","ok",[(MA,'''    match matches.try_get_one::<String>("style") {
        Ok(Some(style)) => {
            config.style = bindgen::Style::from_str(style).unwrap();
        }
        Err(_) => {
            error!("Unknown style specified.");
            return;
        }
        _ => (),
    }
''','''    if let Some(style) = matches.get_one::<String>("style") {
        config.style = style.parse::<bindgen::Style>().unwrap();
    }
'''),(MA,'''    if matches.get_flag("d") {
        config.parse.parse_deps = true;
    }
''','''    set_if(matches, "d", &mut config.parse.parse_deps);
'''),(MA,'fn apply_config_overrides','''fn set_if(matches: &ArgMatches, name: &str, target: &mut bool) {
    if matches.get_flag(name) {
        *target = true;
    }
}

fn apply_config_overrides''')]),
("r-or","ALL","ok",[(MA,'''    if matches.get_flag("package-version") {
        config.package_version = true;
    }
''','''    config.package_version |= matches.get_flag("package-version");
'''),(MA,'''    if matches.get_flag("cpp-compat") {
        config.cpp_compat = true;
    }
''','''    config.cpp_compat = config.cpp_compat || matches.get_flag("cpp-compat");
''')]),
("r-load","ALL","ok",[(MA,'''        let mut config = match matches.get_one::<PathBuf>("config") {
            Some(c) => Config::from_file(c).unwrap(),
            None => Config::from_root_or_default(
                input
                    .parent()
                    .expect("All files should have a parent directory"),
            ),
        };

        apply_config_overrides(&mut config, matches);
''','''        let config = load_config(matches, || {
            input.parent().expect("All files should have a parent directory").to_owned()
        });
'''),(MA,'fn load_bindings','''fn load_config<F: FnOnce() -> PathBuf>(matches: &ArgMatches, dir: F) -> Config {
    let mut config = if let Some(c) = matches.get_one::<PathBuf>("config") {
        Config::from_file(c).unwrap()
    } else {
        Config::from_root_or_default(dir())
    };
    apply_config_overrides(&mut config, matches);
    config
}

fn load_bindings'''),(MA,'''    let mut config = match matches.get_one::<PathBuf>("config") {
        Some(c) => Config::from_file(c).unwrap(),
        None => {
            let binding_crate_dir = lib.find_crate_dir(&lib.binding_crate_ref());

            if let Some(binding_crate_dir) = binding_crate_dir {
                Config::from_root_or_default(binding_crate_dir)
            } else {
                // This shouldn't happen
                Config::from_root_or_default(input)
            }
        }
    };

    apply_config_overrides(&mut config, matches);
''','''    let config = load_config(matches, || {
        lib.find_crate_dir(&lib.binding_crate_ref())
            .unwrap_or_else(|| input.to_owned())
    });
''')]),
("r-main","ALL","ok",[(MA,'''    let input: PathBuf = matches
        .get_one("INPUT")
        .cloned()
        .unwrap_or_else(|| env::current_dir().unwrap());
''','''    let input: PathBuf = match matches.get_one::<PathBuf>("INPUT") {
        Some(input) => input.clone(),
        None => env::current_dir().unwrap(),
    };
'''),(MA,'''    // Initialize logging
    if matches.get_flag("quiet") {
        logging::ErrorLogger::init().unwrap();
    } else {
        match matches.get_count("v") {
            0 => logging::WarnLogger::init().unwrap(),
            1 => logging::InfoLogger::init().unwrap(),
            _ => logging::TraceLogger::init().unwrap(),
        }
    }
''','''    init_logging(&matches);
'''),(MA,'fn main() {','''fn init_logging(matches: &ArgMatches) {
    let result = match (matches.get_flag("quiet"), matches.get_count("v")) {
        (true, _) => logging::ErrorLogger::init(),
        (false, 0) => logging::WarnLogger::init(),
        (false, 1) => logging::InfoLogger::init(),
        (false, _) => logging::TraceLogger::init(),
    };
    result.unwrap();
}

fn main() {''')]),
]
