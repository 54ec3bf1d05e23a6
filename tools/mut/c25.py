T="src/bindgen/ir/ty.rs"; R="src/bindgen/ir/repr.rs"; CL="src/bindgen/language_backend/clike.rs"; CD="src/bindgen/cdecl.rs"
M=[
("longlong","C25","bad",[(T,'"c_ulonglong" => (IntKind::LongLong, false)','"c_ulonglong" => (IntKind::Long, false)')]),
("nz","C25","bad",[(T,'"NonZeroISize" => (IntKind::Size, true)','"NonZeroISize" => (IntKind::Size, false)')]),
("guard","C25","bad",[(T,'(IntKind::Size, true) if config.usize_is_size_t => "ptrdiff_t"','(IntKind::Size, true) if config.usize_is_size_t => "ssize_t"')]),
("guard2","C25","bad",[(T,'(IntKind::SizeT, false) => "size_t",\n                (IntKind::Size, true) if','(IntKind::SizeT, false) if config.usize_is_size_t => "size_t",\n (IntKind::SizeT, false) => "uintptr_t",\n                (IntKind::Size, true) if')]),
("reprsize","C25","bad",[(R,'("isize", None) => (IntKind::Size, true)','("isize", None) => (IntKind::SizeT, true)')]),
("rustname","C25","bad",[(T,'(IntKind::Long, false) => "c_ulong"','(IntKind::Long, false) => "c_ulonglong"')]),
("hdr","C25","bad",[(CL,'''                    out.write("#include <stdbool.h>");''','''                    if !self.config.cpp_compat { out.write("#include <stdbool.h>"); }''')]),
("decl","C25","bad",[(CD,"self.type_name = p.to_repr_c(config).to_string();","self.type_name = if config.language == Language::Cython { p.to_repr_rust().to_string() } else { p.to_repr_c(config).to_string() };")]),
("r_hdr","ALL","ok",[(CL,'''                    out.write("#include <stdint.h>");
                    out.new_line();
                    out.write("#include <stdlib.h>");
                    out.new_line();''','''                    for header in ["stdint.h", "stdlib.h"] {
                        write!(out, "#include <{header}>");
                        out.new_line();
                    }''')]),
("r_split","ALL","ok",[(T,'''            "bool" => PrimitiveType::Bool,
            "char" => PrimitiveType::Char32,
''','''            "char" => PrimitiveType::Char32,
            _ if path == "bool" => PrimitiveType::Bool,
''')]),
("r_size","ALL","ok",[(T,'''                (IntKind::Size, true) if config.usize_is_size_t => "ptrdiff_t",
                (IntKind::Size, false) if config.usize_is_size_t => "size_t",
                (IntKind::Size, true) => "intptr_t",
                (IntKind::Size, false) => "uintptr_t",
''','''                (IntKind::Size, signed) => pointer_sized(signed, config),
'''),(T,"impl PrimitiveType {\n    pub fn maybe",'''fn pointer_sized(signed: bool, config: &Config) -> &'static str {
    if config.usize_is_size_t {
        if signed { "ptrdiff_t" } else { "size_t" }
    } else if signed {
        "intptr_t"
    } else {
        "uintptr_t"
    }
}

impl PrimitiveType {
    pub fn maybe''')]),
]
