X="src/bindgen/cargo/cargo_expand.rs"; P="src/bindgen/parser.rs"; CG="src/bindgen/cargo/cargo.rs"
M=[
("swap","C27","bad",[(P,"""                        self.config.parse.expand.all_features,
                        self.config.parse.expand.default_features,""","""                        self.config.parse.expand.default_features,
                        self.config.parse.expand.all_features,""")]),
("nodef","C27","bad",[(X,"    if !expand_default_features {","    if !expand_default_features && !expand_all_features {")]),
("featall","C27","bad",[(X,"    if let Some(features) = expand_features {","    if let Some(features) = expand_features.as_ref().filter(|_| !expand_all_features) {")]),
("featsep","C27","bad",[(X,"            if index != 0 {\n                features_str.push(' ');","            if index > 1 {\n                features_str.push(' ');")]),
("feattake","C27","bad",[(X,"in features.iter().enumerate()","in features.iter().filter(|f| !f.contains('/')).enumerate()")]),
("ver","C27","bad",[(X,"    if let Some(version) = version {","    if let Some(version) = version.filter(|v| !v.contains('-')) {")]),
("temp","C27","bad",[(X,"        _temp_dir = Some(temp_dir);\n",""),(X,"    let mut _temp_dir = None; // drop guard\n","")]),
("temp2","C27","bad",[(X,"    cmd.env(\"_CBINDGEN_IS_RUNNING\"","    drop(_temp_dir);\n    cmd.env(\"_CBINDGEN_IS_RUNNING\"")]),
("outdir","C27","bad",[(X,"set_target_dir(&mut cmd, &PathBuf::from(path).join(\"expanded\"));","set_target_dir(&mut cmd, &PathBuf::from(path));")]),
("order","C27","bad",[(X,"""    } else if let Ok(ref path) = env::var("CARGO_EXPAND_TARGET_DIR") {
        set_target_dir(&mut cmd, Path::new(path));
    } else if let Ok(ref path) = env::var("OUT_DIR") {""","""    } else if let (Ok(ref path), Err(_)) = (env::var("CARGO_EXPAND_TARGET_DIR"), env::var("OUT_DIR")) {
        set_target_dir(&mut cmd, Path::new(path));
    } else if let Ok(ref path) = env::var("OUT_DIR") {""")]),
("empty","C27","bad",[(X,"    if src.is_empty() {","    if src.is_empty() && !output.status.success() {")]),
("errsrc","C27","bad",[(X,"Err(Error::Compile(error))","Err(Error::Compile(src))")]),
("verbose","C27,C15,C20,C13,C01","ok",[(X,"    cmd.arg(\"rustc\");\n    cmd.arg(\"--lib\");","    cmd.args([\"rustc\", \"--lib\"]);")]),
("join","C27,C15,C20,C13,C01","ok",[(X,"""        let mut features_str = String::new();
        for (index, feature) in features.iter().enumerate() {
            if index != 0 {
                features_str.push(' ');
            }
            features_str.push_str(feature);
        }
        cmd.arg(features_str);""","""        cmd.arg(features.join(" "));""")]),
("fmtpkg","C27,C15,C20,C13,C01","ok",[(X,"""    let mut package = crate_name.to_owned();
    if let Some(version) = version {
        package.push(':');
        package.push_str(version);
    }
    cmd.arg(&package);""","""    let package = match version {
        Some(version) => format!("{crate_name}:{version}"),
        None => crate_name.to_owned(),
    };
    cmd.arg(&package);""")]),
("helper","C27,C15,C20,C13,C01","ok",[(X,"""    if let Some(features) = expand_features {
        cmd.arg("--features");
        let mut features_str = String::new();
        for (index, feature) in features.iter().enumerate() {
            if index != 0 {
                features_str.push(' ');
            }
            features_str.push_str(feature);
        }
        cmd.arg(features_str);
    }
""","""    if let Some(features) = expand_features {
        cmd.arg("--features").arg(feature_list(features));
    }
"""),(X,"/// Use rustc to expand","""fn feature_list(features: &[String]) -> String {
    let mut list = String::new();
    for feature in features {
        if !list.is_empty() {
            list.push(' ');
        }
        list += feature;
    }
    list
}

/// Use rustc to expand""")]),
("tmphelper","C27,C15,C20,C13,C01","ok",[(X,"""    let mut _temp_dir = None; // drop guard
    if use_tempdir {
        let temp_dir = Builder::new().prefix("cbindgen-expand").tempdir()?;
        set_target_dir(&mut cmd, temp_dir.path());
        _temp_dir = Some(temp_dir);
    } else if""","""    let _temp_dir = if use_tempdir { Some(fresh_target(&mut cmd)?) } else { None };
    if use_tempdir {
    } else if"""),(X,"/// Use rustc to expand","""fn fresh_target(cmd: &mut Command) -> Result<tempfile::TempDir, Error> {
    let temp_dir = Builder::new().prefix("cbindgen-expand").tempdir()?;
    set_target_dir(cmd, temp_dir.path());
    Ok(temp_dir)
}

/// Use rustc to expand""")]),
("proforder","C27,C15,C20,C13,C01","ok",[(X,"""    match profile {
        Profile::Debug => {}
        Profile::Release => {
            cmd.arg("--release");
        }
    }
""",""),(X,"""    if profile != Profile::Release {
        cmd.arg("--profile=check");
    }""","""    cmd.arg(match profile {
        Profile::Release => "--release",
        Profile::Debug => "--profile=check",
    });""")]),
("ret","C27,C15,C20,C13,C01","ok",[(X,"""    if src.is_empty() {
        Err(Error::Compile(error))
    } else {
        Ok(src)
    }""","""    if !src.is_empty() {
        return Ok(src);
    }
    Err(Error::Compile(error))""")]),
("run","C27,C15,C20,C13,C01","ok",[(X,"""    let output = cmd.output()?;

    let src = from_utf8(&output.stdout)?.to_owned();
    let error = from_utf8(&output.stderr)?.to_owned();

    if src.is_empty() {
        Err(Error::Compile(error))
    } else {
        Ok(src)
    }
}""","""    run(cmd)
}

fn run(mut cmd: Command) -> Result<String, Error> {
    let output = cmd.output()?;
    let src = from_utf8(&output.stdout)?;
    let error = from_utf8(&output.stderr)?;
    match src.is_empty() {
        true => Err(Error::Compile(error.to_owned())),
        false => Ok(src.to_owned()),
    }
}""")]),
]
