------------------------------ MODULE Configs ------------------------------
(* Generated by tools/gen_cfg.py; do not edit.                             *)
(* The attribute arguments of every trait under test and the tags that are  *)
(* registered in it: `uniq` exactly once, `dups` more than once.            *)

ConfigIds == {"ext0", "int0", "int1", "int2", "int3", "int4", "int5", "int6", "int7", "adj0", "adj1", "adj2", "adj3", "adj4", "adj5", "adj6", "adj7", "adj8", "adj9", "sero", "serx", "sera", "deo", "dex", "dea", "big", "slowe", "slowi", "slowa", "mextn", "mexts", "mexty", "mextb", "mintn", "mints", "minty", "mintb", "madjn", "madjs", "madjy", "madjb"}

Cfg == [
  ext0 |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-ext0", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-ext0", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int0 |-> [rep |-> "int", tag |-> "type", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int0", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int0", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int1 |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> TRUE, def |-> "A", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int1", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int1", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int2 |-> [rep |-> "int", tag |-> "value", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int2", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int2", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int3 |-> [rep |-> "int", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int3", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int3", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int4 |-> [rep |-> "int", tag |-> "t%C3%A4g %22k%22", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int4", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int4", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int5 |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> TRUE, def |-> "nope", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int5", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int5", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int6 |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> TRUE, def |-> "dup", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int6", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int6", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  int7 |-> [rep |-> "int", tag |-> "a", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-int7", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-int7", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj0 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj0", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj0", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj1 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> TRUE, def |-> "A", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj1", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj1", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj2 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> TRUE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj2", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj2", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj3 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> TRUE, def |-> "A", deny |-> TRUE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj3", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj3", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj4 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> TRUE, def |-> "B", deny |-> TRUE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj4", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj4", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj5 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> TRUE, def |-> "nope", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj5", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj5", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj6 |-> [rep |-> "adj", tag |-> "c", content |-> "t", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj6", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj6", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj7 |-> [rep |-> "adj", tag |-> "value", content |-> "type", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj7", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj7", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj8 |-> [rep |-> "adj", tag |-> "", content |-> "t%C3%A4g %22k%22", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj8", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj8", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  adj9 |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> TRUE, def |-> "dup", deny |-> FALSE,
    uniq |-> {"", "A", "B", "C", "K", "XA", "cat", "only-adj9", "sizeless", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25"},
    dups |-> {"dup", "dupx", "quad", "trip"},
    names |-> <<"", "A", "B", "C", "K", "XA", "cat", "dup", "dupx", "only-adj9", "quad", "sizeless", "trip", "value", "wide", "%7Elast", "%C3%BCn%C3%AF %22q%22%5C%0A%25">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  sero |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-sero", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-sero", "sizeless", "wide">>,
    mode |-> "serialize", send |-> FALSE, sync |-> FALSE],
  serx |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-serx", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-serx", "sizeless", "wide">>,
    mode |-> "serialize", send |-> FALSE, sync |-> FALSE],
  sera |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-sera", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-sera", "sizeless", "wide">>,
    mode |-> "serialize", send |-> FALSE, sync |-> FALSE],
  deo |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> TRUE, def |-> "B", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-deo", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-deo", "sizeless", "wide">>,
    mode |-> "deserialize", send |-> FALSE, sync |-> FALSE],
  dex |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-dex", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-dex", "sizeless", "wide">>,
    mode |-> "deserialize", send |-> FALSE, sync |-> FALSE],
  dea |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-dea", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-dea", "sizeless", "wide">>,
    mode |-> "deserialize", send |-> FALSE, sync |-> FALSE],
  big |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"n001", "n002", "n003", "n004", "n005", "n006", "n007", "n008", "n009", "n011", "n012", "n013", "n014", "n015", "n016", "n017", "n018", "n019", "n021", "n022", "n023", "n024", "n025", "n026", "n027", "n028", "n029", "n031", "n032", "n033", "n034", "n035", "n036", "n037", "n038", "n039", "n041", "n042", "n043", "n044", "n045", "n046", "n047", "n048", "n049", "n051", "n052", "n053", "n054", "n055", "n056", "n057", "n058", "n059", "n061", "n062", "n063", "n064", "n065", "n066", "n067", "n068", "n069", "n071", "n072", "n073", "n074", "n075", "n076", "n077", "n078", "n079", "n081", "n082", "n083", "n084", "n085", "n086", "n087", "n088", "n089", "n091", "n092", "n093", "n094", "n095", "n096", "n097", "n098", "n099", "n101", "n102", "n103", "n104", "n105", "n106", "n107", "n108", "n109", "n111", "n112", "n113", "n114", "n115", "n116", "n117", "n118", "n119", "n121", "n122", "n123", "n124", "n125", "n126", "n127", "n128", "n129", "n131", "n132", "n133", "n134", "n135", "n136", "n137", "n138", "n139", "n141", "n142", "n143", "n144", "n145", "n146", "n147", "n148", "n149", "n151", "n152", "n153", "n154", "n155", "n156", "n157", "n158", "n159", "n161", "n162", "n163", "n164", "n165", "n166", "n167", "n168", "n169", "n171", "n172", "n173", "n174", "n175", "n176", "n177", "n178", "n179", "n181", "n182", "n183", "n184", "n185", "n186", "n187", "n188", "n189", "n191", "n192", "n193", "n194", "n195", "n196", "n197", "n198", "n199", "n201", "n202", "n203", "n204", "n205", "n206", "n207", "n208", "n209", "n211", "n212", "n213", "n214", "n215", "n216", "n217", "n218", "n219", "n221", "n222", "n223", "n224", "n225", "n226", "n227", "n228", "n229", "n231", "n232", "n233", "n234", "n235", "n236", "n237", "n238", "n239", "n241", "n242", "n243", "n244", "n245", "n246", "n247", "n248", "n249", "n251", "n252", "n253", "n254", "n255", "n256", "n257", "n258", "n259", "n261", "n262", "n263", "n264", "n265", "n266", "n267", "n268", "n269", "n271", "n272", "n273", "n274", "n275", "n276", "n277", "n278", "n279", "n280", "n281", "n282", "n283", "n284", "n285", "n286", "n287"},
    dups |-> {"n000", "n010", "n020", "n030", "n040", "n050", "n060", "n070", "n080", "n090", "n100", "n110", "n120", "n130", "n140", "n150", "n160", "n170", "n180", "n190", "n200", "n210", "n220", "n230", "n240", "n250", "n260", "n270"},
    names |-> <<"n000", "n001", "n002", "n003", "n004", "n005", "n006", "n007", "n008", "n009", "n010", "n011", "n012", "n013", "n014", "n015", "n016", "n017", "n018", "n019", "n020", "n021", "n022", "n023", "n024", "n025", "n026", "n027", "n028", "n029", "n030", "n031", "n032", "n033", "n034", "n035", "n036", "n037", "n038", "n039", "n040", "n041", "n042", "n043", "n044", "n045", "n046", "n047", "n048", "n049", "n050", "n051", "n052", "n053", "n054", "n055", "n056", "n057", "n058", "n059", "n060", "n061", "n062", "n063", "n064", "n065", "n066", "n067", "n068", "n069", "n070", "n071", "n072", "n073", "n074", "n075", "n076", "n077", "n078", "n079", "n080", "n081", "n082", "n083", "n084", "n085", "n086", "n087", "n088", "n089", "n090", "n091", "n092", "n093", "n094", "n095", "n096", "n097", "n098", "n099", "n100", "n101", "n102", "n103", "n104", "n105", "n106", "n107", "n108", "n109", "n110", "n111", "n112", "n113", "n114", "n115", "n116", "n117", "n118", "n119", "n120", "n121", "n122", "n123", "n124", "n125", "n126", "n127", "n128", "n129", "n130", "n131", "n132", "n133", "n134", "n135", "n136", "n137", "n138", "n139", "n140", "n141", "n142", "n143", "n144", "n145", "n146", "n147", "n148", "n149", "n150", "n151", "n152", "n153", "n154", "n155", "n156", "n157", "n158", "n159", "n160", "n161", "n162", "n163", "n164", "n165", "n166", "n167", "n168", "n169", "n170", "n171", "n172", "n173", "n174", "n175", "n176", "n177", "n178", "n179", "n180", "n181", "n182", "n183", "n184", "n185", "n186", "n187", "n188", "n189", "n190", "n191", "n192", "n193", "n194", "n195", "n196", "n197", "n198", "n199", "n200", "n201", "n202", "n203", "n204", "n205", "n206", "n207", "n208", "n209", "n210", "n211", "n212", "n213", "n214", "n215", "n216", "n217", "n218", "n219", "n220", "n221", "n222", "n223", "n224", "n225", "n226", "n227", "n228", "n229", "n230", "n231", "n232", "n233", "n234", "n235", "n236", "n237", "n238", "n239", "n240", "n241", "n242", "n243", "n244", "n245", "n246", "n247", "n248", "n249", "n250", "n251", "n252", "n253", "n254", "n255", "n256", "n257", "n258", "n259", "n260", "n261", "n262", "n263", "n264", "n265", "n266", "n267", "n268", "n269", "n270", "n271", "n272", "n273", "n274", "n275", "n276", "n277", "n278", "n279", "n280", "n281", "n282", "n283", "n284", "n285", "n286", "n287">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  slowe |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39"},
    dups |-> {"%~00", "%~10", "%~20", "%~30"},
    names |-> <<"%~00", "%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~10", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~20", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~30", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  slowi |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39"},
    dups |-> {"%~00", "%~10", "%~20", "%~30"},
    names |-> <<"%~00", "%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~10", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~20", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~30", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  slowa |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39"},
    dups |-> {"%~00", "%~10", "%~20", "%~30"},
    names |-> <<"%~00", "%~01", "%~02", "%~03", "%~04", "%~05", "%~06", "%~07", "%~08", "%~09", "%~10", "%~11", "%~12", "%~13", "%~14", "%~15", "%~16", "%~17", "%~18", "%~19", "%~20", "%~21", "%~22", "%~23", "%~24", "%~25", "%~26", "%~27", "%~28", "%~29", "%~30", "%~31", "%~32", "%~33", "%~34", "%~35", "%~36", "%~37", "%~38", "%~39">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  mextn |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mextn", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mextn", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  mexts |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mexts", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mexts", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> FALSE],
  mexty |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mexty", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mexty", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> TRUE],
  mextb |-> [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mextb", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mextb", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> TRUE],
  mintn |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mintn", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mintn", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  mints |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mints", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mints", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> FALSE],
  minty |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-minty", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-minty", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> TRUE],
  mintb |-> [rep |-> "int", tag |-> "t", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-mintb", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-mintb", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> TRUE],
  madjn |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-madjn", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-madjn", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> FALSE],
  madjs |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-madjs", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-madjs", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> FALSE],
  madjy |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-madjy", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-madjy", "sizeless", "wide">>,
    mode |-> "serde", send |-> FALSE, sync |-> TRUE],
  madjb |-> [rep |-> "adj", tag |-> "t", content |-> "c", hasdef |-> FALSE, def |-> "", deny |-> FALSE,
    uniq |-> {"A", "B", "C", "K", "only-madjb", "sizeless", "wide"},
    dups |-> {"dup"},
    names |-> <<"A", "B", "C", "K", "dup", "only-madjb", "sizeless", "wide">>,
    mode |-> "serde", send |-> TRUE, sync |-> TRUE]
]
=============================================================================
