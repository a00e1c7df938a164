TRUST = [
 "the engine's semantics of LLVM IR (engine/) agree with the compiler's; sampled paths are re-executed natively on every run and must agree",
 "operator new never fails; the heap is unbounded below 2^40 bytes; uninitialised memory reads as arbitrary but fixed bytes",
 "number formatting: a printed real is a token that reads back as the exact decimal value the format denotes; the direction of rounding of exact ties is arbitrary; the sign of zero is not tracked",
 "arithmetic on grid variables is exact rational arithmetic; operations whose exact result is not a double are flagged, not rounded silently",
 "files are a model of byte sequences with space, open and close failures (rt/runtime.cpp); locale, time and process services are stand-ins",
]
PROPS = {
 "C01": dict(file="c01.cpp", jobs=[dict(fn="c01_arc", reach=["arc-read"]), dict(fn="c01_arc_large", reach=["arc-read"]), dict(fn="c01_line", reach=["line-read"]), dict(fn="c01_conic", reach=["conic-read"]), dict(fn="c01_conic_form", reach=["conic-form-read"]),
   dict(fn="c01_transform", reach=["transform-read"]), dict(fn="c01_composite", reach=["composite-read","closed"]), dict(fn="c01_nurbs", p=dict(weights=1), reach=["nurbs-read", "rational"]), dict(fn="c01_nurbs", reach=["nurbs-read", "rational", "polynomial"]), dict(fn="c01_line", p=dict(fine=1), reach=["line-read"]), dict(fn="c01_conic", p=dict(fine=1), reach=["conic-read"]), dict(fn="c01_transform", p=dict(fine=1), reach=["transform-read"]), dict(fn="c01_nurbs", p=dict(fine=1), reach=["nurbs-read", "rational", "polynomial"])]),
 "C02": dict(file="c02.cpp", jobs=[dict(fn="c02_revolution", reach=["revolution"]), dict(fn="c02_cylinder_tab", reach=["tabulated"]),
   dict(fn="c02_nurbs_surface", reach=["nurbs-surface","rational","polynomial"], cost=9), dict(fn="c02_trimmed", reach=["trimmed","holes"], cost=5), dict(fn="c02_solid_cylinder", reach=["solid-cylinder"]),
   dict(fn="c02_extrusion", reach=["extrusion"]), dict(fn="c02_boolean_tree", reach=["boolean-tree"]), dict(fn="c02_colour", reach=["colour"], cost=4), dict(fn="c02_subfigure", reach=["subfigure"], cost=5),
   dict(fn="c02_revolution", p=dict(fine=1), reach=["revolution"]), dict(fn="c02_cylinder_tab", p=dict(fine=1), reach=["tabulated"]), dict(fn="c02_nurbs_surface", p=dict(fine=1), reach=["nurbs-surface","rational","polynomial"], cost=9), dict(fn="c02_solid_cylinder", p=dict(fine=1), reach=["solid-cylinder"]), dict(fn="c02_extrusion", p=dict(fine=1), reach=["extrusion"]), dict(fn="c02_subfigure", p=dict(fine=1), reach=["subfigure"], cost=5), dict(fn="c02_name_property", reach=["name-property"]), dict(fn="c02_brep", reach=["brep-read","brep-written","pcurves","voids"])]),
 "C03": dict(file="c03.cpp", jobs=[dict(fn="c03_status", reach=["status"], cost=3), dict(fn="c03_numbers", reach=["numbers","set","refused"], cost=5), dict(fn="c03_form", reach=["form","set","refused"]), dict(fn="c03_pointers", reach=["pointers"])]),
 "C08": dict(file="c08.cpp", jobs=[dict(fn="c08_deint", reach=["refused","recovered"]), dict(fn="c08_de_decode", reach=["blank","integer","malformed"], tp=dict(n=7)), dict(fn="c08_de_string", reach=["text"]), dict(fn="c08_de_range", reach=["inside","outside"]),
   dict(fn="c08_int", reach=["int"]), dict(fn="c08_int_range", reach=["fits","too large"]), dict(fn="c08_any_text", reach=["accepted","rejected"], tp=dict(n=6), cost=9), dict(fn="c08_hstring_length", reach=["fits","mismatch"]),
   dict(fn="c08_hstring_pd", reach=["string"], tp=dict(maxlen=14), cost=5), dict(fn="c08_hstring_global", reach=["string"], tp=dict(maxlen=14), cost=5), dict(fn="c08_items", reach=["items"], tp=dict(items=5)), dict(fn="c08_item_too_long", reach=["fits","too long"]), dict(fn="c08_record", reach=["record","malformed"]), dict(fn="c08_real", reach=["real"]), dict(fn="c17_format", file="c17.cpp", p=dict(patterns=2, nres=3), reach=["written"])]),
 "C17": dict(file="c17.cpp", jobs=[dict(fn="c17_format", reach=["written"], tp=dict(patterns=10), cost=9), dict(fn="c17_grid", reach=["grid"], tp=dict(nres=5)), dict(fn="c17_refused", reach=["refused"]), dict(fn="c17_file", reach=["file"], cost=9, p=dict(patterns=3)), dict(fn="c17_parse", reach=["parsed"], p=dict(patterns=3))]),
 "C04": dict(file="c04.cpp", jobs=[dict(fn="c04_strings", reach=["strings","empty"], cost=5), dict(fn="c04_long", reach=["long"]), dict(fn="c04_delims", reach=["delims"]), dict(fn="c04_numbers", reach=["numbers"]), dict(fn="c04_date", reach=["valid","invalid"]), dict(fn="c04_date_read", reach=["accepted","rejected"]), dict(fn="c04_defaults", reach=["defaults"]), dict(fn="c04_required", reach=["required"])]),
 "C05": dict(file="c05.cpp", jobs=[dict(fn="c05_header", reach=["header"], tp=dict(maxlines=3)), dict(fn="c05_header_list", reach=["list"]), dict(fn="c05_refused", reach=["refused","accepted"]), dict(fn="c05_comments", reach=["comments"], cost=5), dict(fn="c05_align", reach=["align"]), dict(fn="c05_delete", reach=["delete"])]),
 "C15": dict(file="c15.cpp", jobs=[dict(fn="c15_space", reach=["kept","fits","full"]), dict(fn="c15_open", reach=["written","refused"]), dict(fn="c15_model", reach=["unwritable"])]),
 "C16": dict(file="c16.cpp", jobs=[dict(fn="c16_failed", reach=["read","failed","reread","rebuilt"], tp=dict(step=1), cost=9), dict(fn="c16_used", reach=["used"])]),
}
G7 = [(0,4),(4,8),(8,11),(11,14),(14,18),(18,21),(21,24)]
PROPS["C07"] = dict(file="c07.cpp", jobs=[dict(fn="c07_item", p=dict(lo=a, hi=b), reach=["read","refused"]) for a, b in G7] + [dict(fn="c07_de", p=dict(lo=a, hi=b), reach=["read","refused"]) for a, b in G7]
  + [dict(fn="c07_record", p=dict(lo=i, hi=i+1), reach=["read","refused"]) for i in range(4)] + [dict(fn="c07_cut", tp=dict(step=1), reach=["refused"]), dict(fn="c07_global", reach=["read","refused"])]
  + [dict(fn="c07_byte", p={"from": a, "to": a + 20, "step": 7 if a == 0 else 2}, tp=dict(step=1), ttime=1500, reach=["read","refused"]) for a in range(0, 100, 20)]
  + [dict(fn="c07_byte", p={"from": 0, "to": 100, "step": st, "model": m}, tp=dict(step=1), ttime=1500, reach=["read","refused"]) for m, st in ((1, 7), (2, 7), (3, 7))])
PROPS["C06"] = dict(file="c06.cpp", jobs=[dict(fn="c06_types", reach=["types"])] + [dict(fn="c06_types", p=dict(lo=a, hi=b, two=1), reach=["types"]) for a, b in G7]
  + [dict(fn="c06_numbers", p=dict(nums=3), tp=dict(nums=6), reach=["numbers"]), dict(fn="c06_long", tp=dict(nums=10), reach=["long"]), dict(fn="c06_texts", reach=["texts"]), dict(fn="c06_attributes", reach=["attributes"]), dict(fn="c06_delims", reach=["refused","delims"])])
G9 = [(i, i + 1) for i in range(24)]
PROPS["C09"] = dict(file="c09.cpp", jobs=[dict(fn="c09_sequence", p=dict(lo=a, hi=b), tp=dict(steps=3), ttime=1500, reach=["linked","refused","deleted"]) for a, b in G9]
  + [dict(fn="c09_read", p=dict(lo=a, hi=b), tp=dict(dels=3), reach=["read"]) for a, b in G7])
PROPS["C14"] = dict(file="c14.cpp", jobs=[dict(fn="c14_parts", tp=dict(len=7), reach=["constructed","set"]), dict(fn="c14_extension", tp=dict(len=5, elen=3), reach=["refused","replaced"]), dict(fn="c14_append", tp=dict(len=5), reach=["nothing","appended"]), dict(fn="c14_sequence", tp=dict(steps=3), reach=["sequence"]), dict(fn="c14_exists", reach=["there","missing"])])
PROPS["C12"] = dict(file="c12.cpp", jobs=[dict(fn="c12_apply", reach=["apply"]), dict(fn="c12_compose", reach=["compose"]), dict(fn="c12_matrix", reach=["matrix"]), dict(fn="c12_point", reach=["point"]), dict(fn="c12_chain", reach=["chain","chain-read"])])
PROPS["C13"] = dict(file="c13.cpp", jobs=[dict(fn="c13_match", reach=["match","differ"]), dict(fn="c13_identical", reach=["identical"]), dict(fn="c13_normal", reach=["normal"]), dict(fn="c13_unit", reach=["unit"]), dict(fn="c13_degenerate", reach=["degenerate"])])
GM = [(0,5),(5,9),(9,13),(13,18),(18,22),(22,25),(25,26),(26,27)]
PROPS["C11"] = dict(file="c11.cpp", jobs=[dict(fn="c11_scale", p=dict(lo=a, hi=b), reach=["scaled"]) for a, b in GM] + [dict(fn="c11_units", p=dict(lo=a, hi=b), reach=["refused","converted"]) for a, b in GM] + [dict(fn="c11_read", p=dict(lo=a, hi=b), reach=["read"]) for a, b in GM]
  + [dict(fn="c11_refused", reach=["accepted","refused"]), dict(fn="c11_number", reach=["number"]), dict(fn="c11_bad", reach=["refused"]), dict(fn="c11_small", reach=["small"])])
PROPS["C24"] = dict(file="c24.cpp", jobs=[dict(fn="c24_line", reach=["line"]), dict(fn="c24_arc", reach=["closed","open"]), dict(fn="c24_arc_near", reach=["closed","open"]), dict(fn="c24_conic", reach=["closed","open"]), dict(fn="c24_nurbs", reach=["spline"]),
   dict(fn="c24_composite", tp=dict(n=4), reach=["refused","closed","open"]), dict(fn="c24_composite", p=dict(file=1), reach=["read","closed","open"]), dict(fn="c24_delete", reach=["deleted"])])
PROPS["C25"] = dict(file="c25.cpp", jobs=[dict(fn="c25_curve", tp=dict(sets=3), reach=["accepted","refused"]), dict(fn="c25_sizes", reach=["accepted","refused"]), dict(fn="c25_surface", tp=dict(sets=3), reach=["accepted","refused"]), dict(fn="c25_self", reach=["curve","surface"])])
PROPS["C19"] = dict(file="c19.cpp", jobs=[dict(fn="c19_graph", p=dict(order=i), reach=["culled","kept"]) for i in range(6)] + [dict(fn="c19_types", p=dict(lo=a, hi=b), reach=["culled","kept"]) for a, b in G7] + [dict(fn="c19_read", reach=["read"])])

PROPS["C20"] = dict(file="c20.cpp", jobs=[dict(fn="c20_sequence", p=dict(lo=a, hi=b, n=3), tp=dict(n=4), reach=["added","removed","deleted","duplicate","owner"]) for a, b in G7] + [dict(fn="c20_file", p=dict(lo=a, hi=b), reach=["some","none"]) for a, b in G7] + [dict(fn="c20_file", p=dict(lo=0, hi=2, many=22), reach=["some"]), dict(fn="c20_read", reach=["read","twice","unknown"]), dict(fn="c20_bad", reach=["good","bad"])])

A5 = [(0,3),(3,6),(6,9),(9,12),(12,15)]
PROPS["C10"] = dict(file="c10.cpp", jobs=[dict(fn="c10_handles", p=dict(lo=a, hi=b, n=2), reach=["shared","new","deleted","cleared","destroyed","moved","end"]) for a, b in A5] + [dict(fn="c10_handles", p=dict(lo=0, hi=1, n=3), tp=dict(n=4), reach=["shared","end"]), dict(fn="c10_create", reach=["created","refused"]), dict(fn="c10_invalid", reach=["invalid"]), dict(fn="c10_geometry", p=dict(n=3), tp=dict(n=4), reach=["shared","outline","deleted","end"])])
PROPS["C26"] = dict(file="c26.cpp", jobs=[dict(fn="c26_data", p=dict(n=2), reach=["set","refused"]), dict(fn="c26_names", p=dict(n=2), reach=["set","removed"])] + [dict(fn="c26_attributes", p=dict(lo=a, hi=b, n=2), reach=["set","refused"]) for a, b in A5] + [dict(fn="c26_lists", p=dict(n=4), tp=dict(n=5), reach=["step","end"]), dict(fn="c26_links", p=dict(n=3), tp=dict(n=4), reach=["set","removed"]), dict(fn="c26_flags", reach=["flags"]), dict(fn="c26_spline", reach=["curve","surface"]), dict(fn="c26_global", p=dict(n=2), reach=["set","refused"])])
PROPS["C18"] = dict(file="c18.cpp", jobs=[dict(fn="c18_export", p=dict(lo=a, hi=a+8), reach=["packaged"] + (["none"] if a == 0 else [])) for a in range(0, 64, 8)] + [dict(fn="c18_several", p=dict(n=2), tp=dict(n=3), reach=["several"])] + [dict(fn="c18_units", p=dict(lo=a, hi=b), reach=["scaled","refused"]) for a, b in G9] + [dict(fn="c18_weights", reach=["none","scaled"]), dict(fn="c18_refused", reach=["refused"])])

PROPS["C21"] = dict(file="c21.cpp", jobs=[dict(fn="c21_words", p=dict(n=5), tp=dict(n=7), reach=["several","few","unterminated"]), dict(fn="c21_lines", p=dict(n=4), tp=dict(n=5), reach=["line","comment"]), dict(fn="c21_keyword", p=dict(n=6), reach=["same","differs"]), dict(fn="c21_header", reach=["two","three"]), dict(fn="c21_drills", reach=["board","component"]), dict(fn="c21_drills", p=dict(any=1), reach=["board","component"]), dict(fn="c21_notes", reach=["notes"]), dict(fn="c21_outline", p=dict(lo=0,hi=4), reach=["lines","arc","circle"]), dict(fn="c21_outline", p=dict(lo=4,hi=8), reach=["lines","arc","circle"]), dict(fn="c21_parts", reach=["mechanical","electrical"]), dict(fn="c21_parts", p=dict(any=1), reach=["mechanical","electrical"], thorough_only=True), dict(fn="c21_outline", p=dict(lo=0,hi=8,any=1), reach=["lines","arc","circle"], thorough_only=True),
  dict(fn="c21_several", reach=["one","two","refused"]), dict(fn="c21_malformed", reach=["refused","optional"]), dict(fn="c21_sections", reach=["short","placement"]), dict(fn="c21_truncated", reach=["read","refused"]), dict(fn="c21_loops", reach=["read","refused"])] + [dict(fn="c21_bytes", p=dict(sec=i, n=1), tp=dict(n=2), reach=["refused","read"]) for i in range(9)])
PROPS["C28"] = dict(file="c28.cpp", jobs=[dict(fn="c28_wall", reach=["wall"]), dict(fn="c28_curved", reach=["circle","one","two","three"]), dict(fn="c28_polygon", reach=["plain","hole","cut"]), dict(fn="c28_arcs", reach=["outline","opening","clockwise"]), dict(fn="c28_round", reach=["plain","hole"]), dict(fn="c28_written", reach=["read"]), dict(fn="c28_open", reach=["open"])])
PROPS["C27"] = dict(file="c27.cpp", jobs=[dict(fn="c27_items", p=dict(s=i), reach=["mm","thou"]) for i in range(11)] + [dict(fn="c27_numbers", p=dict(k=i), reach=["read"]) for i in range(6)] + [dict(fn="c27_older", reach=["two","three"]), dict(fn="c27_loops", reach=["cut","outline"]), dict(fn="c27_arcs", reach=["cut","outline"]), dict(fn="c27_failure", reach=["denied","full"])] + [dict(fn="c27_text", p=dict(k=i), tp=dict(k=i, n=4), reach=["space"] + ([] if i == 5 else ["word"])) for i in range(10)])
