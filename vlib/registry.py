"""Which law files, at which scalar types, decide which property."""
D, F = "d", "f"
INTS = ["i8", "i16", "i", "i64", "i128", "isize"]
UNS = ["u8", "u16", "u", "u64", "u128", "usize"]
ALL = INTS + UNS + [D, F]


def at(f, ks):
    return [(f, k) for k in ks]


def tr(f):
    return dict(parts=at(f, [D, F]), prelude="prelude_tr.rs", upto="cglinalg_transform")


# id -> dict(parts quick, parts thorough (extra), prelude, upto)
LAWS = {
    "P06": dict(parts=at("p06", [D, F]), prelude="prelude_trig.rs", upto="cglinalg_trigonometry"),
    "P07": dict(parts=at("p07", [D, F]) + at("p07x", [D, F]) + at("p07i", INTS), prelude="prelude_trig.rs", upto="cglinalg_trigonometry"),
    "P08": dict(parts=at("p08", ALL) + at("p08s", INTS + [D, F]), upto="cglinalg_core"),
    "P09": dict(parts=at("p09", [D, F]) + at("p09i", ["i"]), upto="cglinalg_core"),
    "P10": dict(parts=at("p10", [D, F, "i", "u"]) + at("p10h", [D, "i"]) + at("p10m", [D, F, "i", "u"]), upto="cglinalg_core"),
    "P11": dict(parts=at("p11", [D, "i"]), upto="cglinalg_core"),
    "P12": dict(parts=at("p12", [D, F]), upto="cglinalg_core"),
    "P13": dict(parts=at("p13", [D, "i", "u"]) + at("p13s", [D, F]) + at("p13k", ALL),
                thorough=at("p13", [F] + [k for k in INTS + UNS if k not in ("i", "u")]) + at("p13b", [D, F]), upto="cglinalg_core"),
    "P14": dict(parts=at("p14", [D, "i"]), upto="cglinalg_core"),
    "P15": dict(parts=at("p15s", INTS + [D, F]) + at("p15", [D, F]) + at("p15b", [D]), thorough=at("p15b", [F]), upto="cglinalg_core"),
    "P16": dict(parts=at("p16", [D, F]), upto="cglinalg_core"),
    "P17": dict(parts=at("p17i", ALL) + at("p17", [D, F]), upto="cglinalg_core"),
    "P18": dict(parts=at("p18", [D, F]), upto="cglinalg_core"),
    "P19": dict(parts=at("p19", [D, F]), upto="cglinalg_core"),
    "P20": dict(parts=at("p20", ALL) + at("p20s", INTS + [D, F]) + at("p20f", [D, F]), upto="cglinalg_core"),
    "P21": dict(parts=at("p21", ALL) + at("p21s", INTS + [D, F]) + at("p21f", [D, F]), upto="cglinalg_core"),
    "P22": dict(parts=at("p22", [D, F]), upto="cglinalg_core"),
    "P23": dict(parts=at("p23", [D, F]), upto="cglinalg_core"),
    "P24": dict(parts=at("p24", ALL) + at("p24s", INTS + [D, F]) + at("p24f", [D, F]), upto="cglinalg_core"),
    "P25": dict(parts=at("p25", [D, F]), upto="cglinalg_core"),
    "P26": dict(parts=at("p26", [D, F]), upto="cglinalg_core"),
    "P27": tr("p27"),
    "P28": tr("p28"),
    "P29": tr("p29"),
    "P30": tr("p30"),
    "P31": tr("p31"),
    "P32": tr("p32"),
    "P33": tr("p33"),
    "P34": tr("p34"),
    "P35": dict(parts=at("p35", [k for k in ALL if k != "i128"]), upto="cglinalg_core"),
    "P38": tr("p38"),
    "P48": dict(parts=at("p48", [D, F]) + at("p48t", [D, F]), prelude="prelude_tr.rs", upto="cglinalg_transform"),
    "P40": dict(parts=at("p40", ALL) + at("p40t", [D, F]) + at("p40n", [D, F]) + at("p40h", ["i64"]), prelude="prelude_tr.rs", upto="cglinalg_transform"),
    "P41": dict(parts=at("p41", [D, "i"]) + at("p41t", [D]), thorough=at("p41", [F]) + at("p41t", [F]), prelude="prelude_fmt.rs", upto="cglinalg_transform"),
}
TABLES = ["P01", "P02", "P03", "P04"]
