# property id -> how to build its check
SYS = dict(mode="sys", fallback="shim", opt="-O2")
CHECKS = {
    "P01": dict(SYS, harness=["p01_mapping.cc"]),
    "P02": dict(SYS, harness=["p02_read.cc"]),
    "P03": dict(SYS, harness=["p03_overwrite.cc"]),
    "P06": dict(SYS, harness=["p06_identity.cc"]),
    "P04": dict(SYS, harness=["p04_load.cc"]),
    "P05": dict(SYS, harness=["p05_io_faults.cc"], libs=["-Wl,--wrap=fopen,--wrap=fseek,--wrap=ftell,--wrap=fread,--wrap=fwrite,--wrap=fclose,--wrap=fflush"]),
    "P07": dict(SYS, harness=["p07_ranges.cc"]),
    "P08": dict(SYS, harness=["p08_rangemap.cc"]),
    "P09": dict(SYS, harness=["p09_arith.cc"]),
    "P10": dict(SYS, harness=["p10_keywords.cc"]),
    "P25": dict(SYS, harness=["p25_dump.cc"], tools=["quick_dump"]),
    "P26": dict(SYS, harness=["p26_sink.cc"]),
    "P11": dict(harness=["p11_tokens.cc"], opt="-O2"),
    "P12": dict(harness=["p12_expr.cc"], opt="-O2"),
    "P13": dict(harness=["p13_isa.cc"], opt="-O2"),
    "P14": dict(harness=["p14_encode.cc"], opt="-O2"),
    "P16": dict(harness=["p16_flags.cc"], opt="-O2"),
    "P18": dict(harness=["p18_flow.cc"], opt="-O2"),
    "P15": dict(harness=["p15_source.cc"], opt="-O2"),
    "P21": dict(harness=["p21_names.cc"], opt="-O2"),
    "P22": dict(harness=["p22_order.cc"], opt="-O2"),
    "P23": dict(harness=["p23_layout.cc"], opt="-O2"),
    "P19": dict(harness=["p19_disasm.cc"], opt="-O2"),
    "P20": dict(harness=["p20_roundtrip.cc"], opt="-O2"),
    "P28": dict(harness=["p28_calls.cc"], opt="-O2"),
    "P31": dict(harness=["p31_print.cc"], opt="-O2"),
    "P24": dict(harness=["p24_robust.cc"], opt="-O1", san="asan"),
    "P30": dict(harness=["p30_faults.cc"], opt="-O2"),
    "P32": dict(harness=["p32_files.cc"], opt="-O2"),
    "P29": dict(harness=["p29_places.cc"], opt="-O2"),
    "P27": dict(harness=["p27_tools.cc"], opt="-O2", tools=["quick_assemble", "quick_disassemble", "disassemble_more", "dumb_disassemble"]),
    "P33": dict(harness=["p33_look.cc"], opt="-O2", tools=["print_opcode_map", "interactive_parse", "dumb_disassemble"]),
}
