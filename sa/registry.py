from . import rules_opts as op, rules_config as cg, rules_expand as xd, rules_layout as ly, rules_conf as cn, rules_export as xp, rules_traversal as t, rules_ir as ir, rules_global as g, rules_err as e, rules_io as io, rules_out as o, rules_cond as cd, rules_cfg as cf, rules_tables as tb, rules_expr as ex, rules_mangle as mg
RULES = {"C16": cg.c16, "C17": op.c17, "C18": cn.c18, "C19": cn.c19, "C01": g.c01, "C02": t.c02, "C03": t.c03, "C04": t.c04, "C05": ir.c05, "C06": t.c06, "C07": t.c07,
         "C13": e.c13, "C14": io.c14, "C15": io.c15, "C20": io.c20, "C21": io.c21, "C22": io.c22, "C10": o.c10, "C09": cd.c09, "C08": cf.c08,
         "C25": tb.c25, "C30": ex.c30, "C26": mg.c26, "C23": xp.c23, "C24": xp.c24, "C12": ly.c12, "C27": xd.c27}
