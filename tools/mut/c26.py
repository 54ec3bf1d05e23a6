M_="src/bindgen/mangle.rs"
M=[
("skiparg","C26","bad",[(M_,"for (i, arg) in args.iter().enumerate() {","for (i, arg) in args.iter().take(4).enumerate() {")]),
("ret","C26","bad",[(M_,"                self.append_mangled_type(ret, args.is_empty());","                if !args.is_empty() { self.append_mangled_type(ret, false); }")]),
("const","C26","bad",[(M_,"""                self.push(if is_const {
                    Separator::BeginConstPtr
                } else {""","""                self.push(if is_const && !last {
                    Separator::BeginConstPtr
                } else {""")]),
("len","C26","bad",[(M_,"                self.append_mangled_argument(&GenericArgument::Const(len.clone()), last);","                if !last { self.append_mangled_argument(&GenericArgument::Const(len.clone()), last); }")]),
("val","C26","bad",[(M_,"GenericArgument::Const(ConstExpr::Value(ref val)) => self.output.push_str(val),","GenericArgument::Const(ConstExpr::Value(ref val)) => self.output.push_str(val.trim_start_matches('-')),")]),
("lastgen","C26","bad",[(M_,"            let last = self.last && i == self.generic_values.len() - 1;","            let last = self.last;")]),
("lastfn","C26","bad",[(M_,"                    let last = last && i == args.len() - 1;","                    let last = i == args.len() - 1;")]),
("endfn","C26","bad",[(M_,"                if !self.last {\n                    self.push(Separator::EndFn);","                if !self.last && args.is_empty() {\n                    self.push(Separator::EndFn);")]),
("sepsame","C26","bad",[(M_,"self.push(Separator::BetweenArray);","self.push(Separator::BetweenFnArg);")]),
("count","C26","bad",[(M_,"        let count = id as usize;","        let count = (id as usize).min(4);")]),
("gen1","C26","bad",[(M_,"Mangler::new(generic.export_name(), generic.generics(), last, self.config)","Mangler::new(generic.export_name(), &generic.generics()[..generic.generics().len().min(1)], last, self.config)")]),
("lastpath","C26","bad",[(M_,"Mangler::new(generic.export_name(), generic.generics(), last, self.config)","Mangler::new(generic.export_name(), generic.generics(), true, self.config)")]),
("r_base","ALL","ok",[(M_,"        self.input.clone_into(&mut self.output);","        self.output.push_str(self.input);")]),
("r_sep","ALL","ok",[(M_,"""                self.push(if is_const {
                    Separator::BeginConstPtr
                } else {
                    Separator::BeginMutPtr
                });""","""                if is_const {
                    self.push(Separator::BeginConstPtr);
                } else {
                    self.push(Separator::BeginMutPtr);
                }""")]),
("r_helper","ALL","ok",[(M_,"""            Type::Array(ref ty, ref len) => {
                self.push(Separator::BeginArray);
                self.append_mangled_type(ty, false);
                self.push(Separator::BetweenArray);
                self.append_mangled_argument(&GenericArgument::Const(len.clone()), last);
            }""","""            Type::Array(ref ty, ref len) => self.append_mangled_array(ty, len, last),"""),(M_,"    fn mangle_internal(&mut self) {","""    fn append_mangled_array(&mut self, elem: &Type, len: &ConstExpr, last: bool) {
        self.push(Separator::BeginArray);
        self.append_mangled_type(elem, false);
        self.push(Separator::BetweenArray);
        let len = GenericArgument::Const(len.clone());
        self.append_mangled_argument(&len, last);
    }

    fn mangle_internal(&mut self) {""")]),
("r_loop","ALL","ok",[(M_,"""        self.push(Separator::OpeningAngleBracket);
        for (i, arg) in self.generic_values.iter().enumerate() {
            if i != 0 {
                self.push(Separator::Comma);
            }
            let last = self.last && i == self.generic_values.len() - 1;
            self.append_mangled_argument(arg, last);
        }
""","""        let values = self.generic_values;
        let count = values.len();
        self.push(Separator::OpeningAngleBracket);
        for (i, value) in values.iter().enumerate() {
            if i > 0 {
                self.push(Separator::Comma);
            }
            self.append_mangled_argument(value, self.last && i + 1 == count);
        }
""")]),
("r_push","ALL","ok",[(M_,"""        let separator = if self.config.remove_underscores {
            ""
        } else {
            "_"
        };
        self.output.extend(std::iter::repeat(separator).take(count));""","""        if self.config.remove_underscores {
            return;
        }
        self.output.push_str(&"_".repeat(count));""")]),
]
