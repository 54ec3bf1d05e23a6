C="src/bindgen/config.rs"; A="src/bindgen/ir/annotation.rs"; K="src/bindgen/language_backend/clike.rs"; Y="src/bindgen/language_backend/cython.rs"; D="src/bindgen/cdecl.rs"
S="src/bindgen/ir/structure.rs"; EN="src/bindgen/ir/enumeration.rs"; FN="src/bindgen/ir/function.rs"; U="src/bindgen/ir/union.rs"; KO="src/bindgen/ir/constant.rs"; LB="src/bindgen/language_backend/mod.rs"
def acc(f,old,new): return (C,old,new)
M=[
("key","C17","bad",[(C,'annotations.bool("derive-lte")','annotations.bool("derive-lt")')]),
("field","C17","bad",[(C,'''        if let Some(x) = annotations.bool("derive-gte") {
            return x;
        }
        self.derive_gte''','''        if let Some(x) = annotations.bool("derive-gte") {
            return x;
        }
        self.derive_gt''')]),
("orann","C17","bad",[(C,'''        if let Some(x) = annotations.bool("enum-class") {
            return x;
        }
        self.enum_class''','''        self.enum_class || annotations.bool("enum-class").unwrap_or(false)''')]),
("optfirst","C17","bad",[(C,'''        if let Some(x) = annotations.atom("postfix") {
            return x;
        }
        self.postfix.clone()''','''        if self.postfix.is_some() {
            return self.postfix.clone();
        }
        annotations.atom("postfix").unwrap_or(None)''')]),
("dropann","C17","bad",[(C,'''        if let Some(x) = annotations.bool("derive-ostream") {
            return x;
        }
        self.derive_ostream
    }
    pub(crate) fn enum_class''','''        let _ = annotations;
        self.derive_ostream
    }
    pub(crate) fn enum_class''')]),
("header","C17","bad",[(K,"if let Some(ref f) = self.config.header {","if let Some(f) = self.config.header.as_ref().filter(|_| self.config.autogen_warning.is_none()) {")]),
("autogen","C17","bad",[(K,"if let Some(ref f) = self.config.autogen_warning {","if let (Some(f), false) = (self.config.autogen_warning.as_ref(), self.config.no_includes) {")]),
("pkgver","C17","bad",[(Y,"if self.config.package_version {","if self.config.package_version && !self.config.include_version {")]),
("note","C17","bad",[(A,"DeprecatedNoteKind::EnumVariant => &config.enumeration.deprecated_variant_with_note","DeprecatedNoteKind::EnumVariant => &config.enumeration.deprecated_with_note")]),
("noteplain","C17","bad",[(A,"DeprecatedNoteKind::Function => config.function.deprecated.as_deref()?","DeprecatedNoteKind::Function => config.structure.deprecated.as_deref()?")]),
("rulefn","C17","bad",[(FN,"let rules = rules.as_ref().unwrap_or(&config.function.rename_args);","let rules = Some(&config.function.rename_args).filter(|r| r.not_none().is_some()).or(rules.as_ref()).unwrap_or(&config.function.rename_args);")]),
("ruleun","C17","bad",[(U,"unwrap_or(&config.structure.rename_fields)","unwrap_or(&config.function.rename_args)")]),
("rulekey","C17","bad",[(KO,'"rename-associated-constant"','"rename-all"')]),
("null","C17","bad",[(D,"} else if is_nullable {","} else if is_nullable && !is_ref && config.pointer.non_null_attribute.is_some() {")]),
("nullsw","C17","bad",[(D,"&config.pointer.nullable_attribute","&config.pointer.non_null_attribute")]),
("noret","C17","bad",[(D,"if never_return && config.language","if config.language")]),
("mustuse","C17","bad",[(A,"self.must_use && config.language != Language::Cython","self.must_use && config.language == Language::Cxx")]),
("boolatom","C17","bad",[(A,'''            Some(AnnotationValue::Bool(x)) => Some(*x),
            _ => None,''','''            Some(AnnotationValue::Bool(x)) => Some(*x),
            Some(AnnotationValue::Atom(_)) => Some(true),
            _ => None,''')]),
("usingns","C17","bad",[(K,"if let Some(ref using_namespaces) = b.config.using_namespaces {","if let Some(using_namespaces) = b.config.using_namespaces.as_ref().filter(|_| b.config.namespace.is_some()) {")]),
("trailer","C17","bad",[(LB,"if let Some(ref f) = b.config.trailer {","if let Some(f) = b.config.trailer.as_ref().filter(|_| b.config.header.is_some()) {")]),
("cyheader","C17","bad",[(Y,"self.config.cython.header.as_deref()","self.config.cython.header.as_deref().filter(|_| !self.config.no_includes)")]),
("raw","C17","bad",[(K,"config.structure.derive_eq(","!b_dummy(")]),
# refactorings
("r-unwrap","C17,C16","ok",[(C,'''        if let Some(x) = annotations.bool("enum-class") {
            return x;
        }
        self.enum_class''','''        annotations.bool("enum-class").unwrap_or(self.enum_class)''')]),
("r-match","C17,C16","ok",[(C,'''        if let Some(x) = annotations.bool("derive-eq") {
            return x;
        }
        self.derive_eq''','''        match annotations.bool("derive-eq") {
            Some(x) => x,
            None => self.derive_eq,
        }''')]),
("r-helper","C17,C16","ok",[(C,'''        if let Some(x) = annotations.bool("derive-lt") {
            return x;
        }
        self.derive_lt
    }''','''        Self::overridden(annotations, "derive-lt", self.derive_lt)
    }
    fn overridden(annotations: &AnnotationSet, key: &str, default: bool) -> bool {
        annotations.bool(key).unwrap_or(default)
    }''')]),
("r-atomelse","C17,C16","ok",[(C,'''        if let Some(x) = annotations.atom("postfix") {
            return x;
        }
        self.postfix.clone()''','''        annotations.atom("postfix").unwrap_or_else(|| self.postfix.clone())''')]),
("r-headerfn","C17,C10,C01","ok",[(K,'''        if let Some(ref f) = self.config.header {
            out.new_line_if_not_start();
            write!(out, "{f}");
            out.new_line();
        }
        if let Some(f) = self.config.include_guard() {''','''        let block = |out: &mut SourceWriter<W>, text: Option<&str>| {
            if let Some(f) = text {
                out.new_line_if_not_start();
                write!(out, "{f}");
                out.new_line();
            }
        };
        block(out, self.config.header.as_deref());
        if let Some(f) = self.config.include_guard() {'''),(K,'''        if let Some(ref f) = self.config.autogen_warning {
            out.new_line_if_not_start();
            write!(out, "{f}");
            out.new_line();
        }
''','''        block(out, self.config.autogen_warning.as_deref());
''')]),
("r-trailer","C17,C10,C01","ok",[(LB,"if let Some(ref f) = b.config.trailer {","if let Some(f) = b.config.trailer.as_deref() {")]),
("r-rule","C17","ok",[(FN,"let rules = rules.as_ref().unwrap_or(&config.function.rename_args);","let rules = match rules {\n            Some(ref r) => r,\n            None => &config.function.rename_args,\n        };")]),
("r-null","C17","ok",[(D,'''                        if !is_nullable && !is_ref {
                            if let Some(attr) = &config.pointer.non_null_attribute {
                                write!(out, "{attr} ");
                            }
                        } else if is_nullable {
                            if let Some(attr) = &config.pointer.nullable_attribute {
                                write!(out, "{attr} ");
                            }
                        }''','''                        let attr = match (is_nullable, is_ref) {
                            (true, _) => config.pointer.nullable_attribute.as_ref(),
                            (false, false) => config.pointer.non_null_attribute.as_ref(),
                            (false, true) => None,
                        };
                        if let Some(attr) = attr {
                            write!(out, "{attr} ");
                        }''')]),
("r-noret","C17","ok",[(D,'''                    if never_return && config.language != Language::Cython {
                        if let Some(ref no_return_attr) = config.function.no_return {
                            out.write_fmt(format_args!(" {no_return_attr}"));
                        }
                    }''','''                    let no_return = config.function.no_return.as_deref();
                    if let Some(attr) = no_return.filter(|_| never_return && config.language != Language::Cython) {
                        write!(out, " {attr}");
                    }''')]),
("r-note","C17","ok",[(A,'''        if note.is_empty() {
            return Some(Cow::Borrowed(match kind {
                DeprecatedNoteKind::Enum => config.enumeration.deprecated.as_deref()?,
                DeprecatedNoteKind::EnumVariant => {
                    config.enumeration.deprecated_variant.as_deref()?
                }
                DeprecatedNoteKind::Function => config.function.deprecated.as_deref()?,
                DeprecatedNoteKind::Struct => config.structure.deprecated.as_deref()?,
            }));
        }

        let format = match kind {
            DeprecatedNoteKind::Enum => &config.enumeration.deprecated_with_note,
            DeprecatedNoteKind::EnumVariant => &config.enumeration.deprecated_variant_with_note,
            DeprecatedNoteKind::Function => &config.function.deprecated_with_note,
            DeprecatedNoteKind::Struct => &config.structure.deprecated_with_note,
        }
        .as_ref()?;
        Some(Cow::Owned(format.replace("{}", &format!("{note:?}"))))''','''        let (plain, noted) = match kind {
            DeprecatedNoteKind::Enum => (&config.enumeration.deprecated, &config.enumeration.deprecated_with_note),
            DeprecatedNoteKind::EnumVariant => (&config.enumeration.deprecated_variant, &config.enumeration.deprecated_variant_with_note),
            DeprecatedNoteKind::Function => (&config.function.deprecated, &config.function.deprecated_with_note),
            DeprecatedNoteKind::Struct => (&config.structure.deprecated, &config.structure.deprecated_with_note),
        };
        if note.is_empty() {
            return plain.as_deref().map(Cow::Borrowed);
        }
        noted.as_ref().map(|format| Cow::Owned(format.replace("{}", &format!("{note:?}"))))''')]),
("r-get","C17","ok",[(A,'''        match self.annotations.get(name) {
            Some(AnnotationValue::Bool(x)) => Some(*x),
            _ => None,
        }''','''        if let Some(AnnotationValue::Bool(x)) = self.annotations.get(name) {
            Some(*x)
        } else {
            None
        }''')]),
("r-using","C17","ok",[(K,'''        if !b.functions.is_empty() || !b.globals.is_empty() {
            if b.config.cpp_compatible_c() {
                out.new_line_if_not_start();''','''        let nothing = b.functions.is_empty() && b.globals.is_empty();
        if !nothing {
            if b.config.cpp_compatible_c() {
                out.new_line_if_not_start();''')]),
("r-earlyuse","C17","ok",[(K,'''            if b.config.language == Language::Cxx {
                if let Some(ref using_namespaces) = b.config.using_namespaces {
                    for namespace in using_namespaces {
                        out.new_line();
                        write!(out, "using namespace {namespace};");
                    }
                    out.new_line();
                }
            }
''','''            self.write_using(out, &b.config);
'''),(K,"impl<'a> CLikeLanguageBackend<'a> {","impl<'a> CLikeLanguageBackend<'a> {\n    fn write_using<W: Write>(&self, out: &mut SourceWriter<W>, config: &Config) {\n        if config.language != Language::Cxx {\n            return;\n        }\n        let Some(using_namespaces) = config.using_namespaces.as_ref() else {\n            return;\n        };\n        for namespace in using_namespaces {\n            out.new_line();\n            write!(out, \"using namespace {namespace};\");\n        }\n        out.new_line();\n    }\n")]),
]
M=[m for m in M if m[0]!="raw"]
M += [
("d-off","C17","bad",[(Y,"if d.doc_comment.is_empty() || !&self.config.documentation {","if d.doc_comment.is_empty() {")]),
("d-style","C17","bad",[(K,"DocumentationStyle::C99 => out.write(\"//\")","DocumentationStyle::C99 => out.write(\"///\")")]),
("d-auto","C17","bad",[(K,"DocumentationStyle::Auto if self.config.language == Language::Cxx => {\n                DocumentationStyle::Cxx","DocumentationStyle::Auto if self.config.language == Language::Cxx => {\n                DocumentationStyle::Doxy")]),
("d-len","C17","bad",[(Y,"DocumentationLength::Full => d.doc_comment.len()","DocumentationLength::Full => 1")]),
("d-close","C17","bad",[(K,"            DocumentationStyle::C => {\n                out.write(\" */\");\n                out.new_line();\n            }\n","            DocumentationStyle::C if self.config.language == Language::Cxx => {}\n            DocumentationStyle::C => {\n                out.write(\" */\");\n                out.new_line();\n            }\n")]),
("rd-take","C17,C21","ok",[(K,"for line in &d.doc_comment[..end] {","for line in d.doc_comment.iter().take(end) {")]),
("rd-prefix","C17,C21,C10","ok",[(K,"            match style {\n                DocumentationStyle::C => out.write(\"\"),\n                DocumentationStyle::Doxy => out.write(\" *\"),\n                DocumentationStyle::C99 => out.write(\"//\"),\n                DocumentationStyle::Cxx => out.write(\"///\"),\n                DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered\n            }\n\n            write!(out, \"{line}\");","            let prefix = match style {\n                DocumentationStyle::C => \"\",\n                DocumentationStyle::Doxy => \" *\",\n                DocumentationStyle::C99 => \"//\",\n                DocumentationStyle::Cxx => \"///\",\n                DocumentationStyle::Auto => unreachable!(),\n            };\n            write!(out, \"{prefix}{line}\");")]),
("rd-merge","C17,C10","ok",[(K,"            DocumentationStyle::C => {\n                out.write(\" */\");\n                out.new_line();\n            }\n\n            DocumentationStyle::Doxy => {\n                out.write(\" */\");\n","            DocumentationStyle::C | DocumentationStyle::Doxy => {\n                out.write(\" */\");\n")]),
("rd-if","C17,C10","ok",[(K,"        let style = match self.config.documentation_style {\n            DocumentationStyle::Auto if self.config.language == Language::C => {\n                DocumentationStyle::Doxy\n            }\n            DocumentationStyle::Auto if self.config.language == Language::Cxx => {\n                DocumentationStyle::Cxx\n            }\n            DocumentationStyle::Auto => DocumentationStyle::C, // Fallback if `Language` gets extended.\n            other => other,\n        };","        let style = match (self.config.documentation_style, self.config.language) {\n            (DocumentationStyle::Auto, Language::C) => DocumentationStyle::Doxy,\n            (DocumentationStyle::Auto, Language::Cxx) => DocumentationStyle::Cxx,\n            (DocumentationStyle::Auto, _) => DocumentationStyle::C,\n            (other, _) => other,\n        };")]),
]
