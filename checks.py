"""Registry: property id -> proof jobs."""
from engine import Job

PC, AX, SE, TC = "mbus/mbus-protocol.c", "mbus/mbus-protocol-aux.c", "mbus/mbus-serial.c", "mbus/mbus-tcp.c"


class Check:
    def __init__(self, jobs, level="proof", technique="CBMC function contracts on the real C code", note="", trust=(), assumptions=()):
        self.jobs, self.level, self.technique, self.note, self.trust, self.assumptions = jobs, level, technique, note, list(trust), list(assumptions)


CHECKS = {}
NOSNP = {"snprintf": "vp_snprintf_any"}   # error-message text is not part of these contracts

# ---- C01/C02 frame recognition -------------------------------------------------------
_ranges = [("n%d-%d" % (a, b), ["-DNLO=%d" % a, "-DNHI=%d" % b]) for a, b in
           [(111, 160), (1, 60), (61, 110), (161, 200), (201, 230), (231, 261), (262, 300)]]
_rangesN = [(l, d + ["-DNOACC"] if l == "n262-300" else d) for l, d in _ranges]
def _lf(ls): return [("L%d" % a, ["-DLEN1=%d" % a]) for a in ls]
_some = (3, 4, 5, 6, 60, 254, 255)
_sm = [("n%d" % n, ["-DFIXN=%d" % n] + (["-DNOACC"] if n in () else [])) for n in range(1, 10)]
_parse = ["mbus_parse", "mbus_frame_verify", "calc_checksum", "calc_length"]
_end = [("end", ["-DNLO=1", "-DNHI=300", "-DENDBASE=1"])]
CHECKS["C01"] = Check([
    Job("parse-any-content", "c01_parse.c", [PC], macros=NOSNP, cases=_ranges, unwind=302, under=_parse, timeout=300),
    Job("parse-exact-buffer", "c01_parse.c", [PC], macros=NOSNP, cases=_lf(_some), unwind=302, under=_parse, timeout=200),
    Job("parse-exact-buffer-small", "c01_parse.c", [PC], macros=NOSNP, cases=_sm, unwind=302, under=_parse),
    Job("parse-exact-buffer-all", "c01_parse.c", [PC], macros=NOSNP, cases=_lf([x for x in range(255, 2, -1) if x not in _some]),
        unwind=302, under=_parse, timeout=400, tier="thorough"),
], assumptions=["error message text (snprintf into the error buffer) is not part of the contract"])
CHECKS["C02"] = Check([
    Job("need-any-content", "c01_parse.c", [PC], macros=NOSNP, defs=["-DMODE_NEED=1"], cases=[r for r in _ranges if r[0] != "n262-300"], unwind=302, under=_parse),
    Job("need-exact-buffer-small", "c01_parse.c", [PC], macros=NOSNP, defs=["-DMODE_NEED=1"], cases=_sm[:8], unwind=302, under=_parse),
    Job("need-exact-buffer-all", "c01_parse.c", [PC], macros=NOSNP, defs=["-DMODE_NEED=1"], cases=_end, unwind=302, under=_parse, timeout=900, tier="thorough"),
])

# ---- C04 frame verification ----------------------------------------------------------
CHECKS["C04"] = Check([
    Job("verify", "c04_verify.c", [PC], macros=NOSNP, cases=[("type4", ["-DTYPE=4"]), ("type1", ["-DTYPE=1"]), ("type2", ["-DTYPE=2"]),
        ("type3", ["-DTYPE=3"]), ("other", [])], unwind=260, under=["mbus_frame_verify", "calc_checksum", "calc_length"]),
])

# ---- C05..C09 leaf codecs ------------------------------------------------------------
def _n(ns): return [("n%d" % n, ["-DN=%d" % n]) for n in ns]
CHECKS["C05"] = Check([
    Job("bcd-decode", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=1"], cases=_n(range(1, 9)), unwind=25, under=["mbus_data_bcd_decode"]),
    Job("bcd-decode-hex", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2"], cases=_n(range(1, 8)), unwind=25, under=["mbus_data_bcd_decode_hex"]),
    Job("bcd-encode", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], cases=_n(range(1, 9)), unwind=25, under=["mbus_data_bcd_encode"]),
    Job("bcd-empty", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=4", "-DN=1"], unwind=25, under=["mbus_data_bcd_decode", "mbus_data_bcd_decode_hex"]),
])
CHECKS["C06"] = Check([
    Job("int-decode", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=5"], cases=_n(range(1, 9)), unwind=25,
        under=["mbus_data_int_decode", "mbus_data_long_decode", "mbus_data_long_long_decode"]),
    Job("int-encode", "c05_bcd.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=6"], cases=_n(range(1, 5)), unwind=25,
        under=["mbus_data_int_encode", "mbus_data_int_decode"]),
])
SNP = {"VP_USE_SNPRINTF": "1"}
CHECKS["C07"] = Check([
    Job("real", "c07_text.c", [PC], cmacros=SNP, defs=["-DMODE=1"], unwind=10, under=["mbus_data_float_decode"]),
    Job("text-any-size", "c07_text.c", [PC], cmacros=SNP, defs=["-DMODE=2"], unwind=262, under=["mbus_data_str_decode"],
        cases=[("n%d-%d" % (a, a + 7), ["-DN=%d" % a, "-DN2=%d" % (a + 7)]) for a in range(248, -1, -8)]),
    Job("text-exact-buffers", "c07_text.c", [PC], cmacros=SNP, defs=["-DMODE=3"], cases=_n((0, 1, 2, 3, 100, 234, 255)), unwind=262, under=["mbus_data_str_decode"]),
    Job("binary", "c07_text.c", [PC], cmacros=SNP, defs=["-DMODE=4"], unwind=780, maxunwind=800, obits=14, under=["mbus_data_bin_decode"],
        cases=[("n%d-%d-m%d" % (n, n2, m), ["-DN=%d" % n, "-DN2=%d" % n2, "-DM=%d" % m]) for n, n2, m in
               [(n, n, 768) for n in (255, 240, 239, 234, 200, 128, 127, 64, 33)] + [(n, n, 768) for n in range(0, 17)] +
               [(0, 8, m) for m in (1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 24, 25, 26)] + [(58, 66, m) for m in (191, 192, 193, 194)]]),
    Job("binary-every-size", "c07_text.c", [PC], cmacros=SNP, defs=["-DMODE=4"], unwind=780, maxunwind=800, obits=14, under=["mbus_data_bin_decode"], tier="thorough",
        cases=[("n%d" % n, ["-DN=%d" % n, "-DN2=%d" % n, "-DM=768"]) for n in range(17, 255)]),
])
CHECKS["C08"] = Check([
    Job("time", "c08_time.c", [PC], macros=NOSNP, extra=["vp_snp.c"], cases=_n((2, 4, 6, 0)), unwind=60, under=["mbus_data_tm_decode"]),
])
NOCT = {"__NO_CTYPE": "1"}
CHECKS["C09"] = Check([
    Job("numeric-id", "c09_manuf.c", [PC], macros=NOSNP, cmacros=NOCT, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=20, under=["mbus_manufacturer_id"]),
    Job("short-text", "c09_manuf.c", [PC], macros=NOSNP, cmacros=NOCT, extra=["vp_snp.c"], defs=["-DMODE=3"], cases=_n((0, 1, 2, 3)), unwind=20, under=["mbus_manufacturer_id"]),
    Job("encode-decode", "c09_manuf.c", [PC], macros=NOSNP, cmacros=NOCT, extra=["vp_snp.c"], defs=["-DMODE=2"], unwind=20,
        under=["mbus_data_manufacturer_encode", "mbus_decode_manufacturer", "mbus_manufacturer_id", "mbus_data_int_encode", "mbus_data_int_decode"]),
])

# ---- C03 packing ---------------------------------------------------------------------
_r3 = [(200, 252), (150, 199), (100, 149), (50, 99), (0, 49), (253, 600)]
CHECKS["C03"] = Check([
    Job("pack-long", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=4"], unwind=280, unwindset={}, under=["mbus_frame_pack", "mbus_frame_calc_length", "mbus_frame_calc_checksum", "calc_checksum", "calc_length"],
        cases=[("n%d-%d" % r, ["-DNLO=%d" % r[0], "-DNHI=%d" % r[1]]) for r in _r3[:5]]),
    Job("pack-oversized", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=4", "-DNLO=253", "-DNHI=1000", "-DVP_NOCOVER"], unwind=280, under=["mbus_frame_pack"], must_cover=False),
    Job("pack-ack", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=1", "-DNLO=0", "-DNHI=252"], unwind=280, under=["mbus_frame_pack"]),
    Job("pack-short", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=2", "-DNLO=0", "-DNHI=252"], unwind=280, under=["mbus_frame_pack"]),
    Job("pack-control", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=3", "-DNLO=0", "-DNHI=252"], unwind=280, under=["mbus_frame_pack"]),
    Job("pack-unknown-type", "c03_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DTYPE=vp_badtype", "-DNLO=0", "-DNHI=252"], unwind=280, under=["mbus_frame_pack"], must_cover=False),
])

# ---- C10 record splitting -------------------------------------------------------------
_cutvp = dict(src=PC, func="mbus_data_variable_parse", cuts=[dict(depth=0, count=1, hook="vp_cut"), dict(depth=1, vars=2, hook="vp_copy")])
CHECKS["C10"] = Check([
    Job("records", "c10_records.c", [PC], stubs=["mbus_data_record_new", "mbus_data_record_free", "mbus_data_str_decode"], macros=NOSNP, extra=["vp_snp.c"], cut=_cutvp, unwind=14, unwindset={"harness.0": 253}, maxunwind=28,
        cases=[("k%d-p%d-%d" % (k, a, b), ["-DKIND=%d" % k, "-DPLO=%d" % a, "-DPHI=%d" % b]) for k, a, b in [(2, 60, 123), (2, 12, 59), (2, 124, 187), (2, 188, 252), (3, 12, 91), (3, 92, 171), (3, 172, 252), (1, 12, 252)]],
        under=["mbus_data_variable_parse", "mbus_dif_datalength_lookup", "mbus_data_record_append"]),
])

# ---- C11 payload dispatch, C13 DIF bits -------------------------------------------------
CHECKS["C11"] = Check([
    Job("dispatch", "c11_dispatch.c", [PC], stubs=["mbus_data_variable_parse"], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=260,
        under=["mbus_frame_data_parse", "mbus_data_fixed_parse"], assumptions=["mbus_data_variable_parse satisfies its contract (C10)"]),
    Job("short-variable", "c11_dispatch.c", [PC], stubs=["mbus_data_record_new", "mbus_data_record_free"], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2"], unwind=18, unwindset={"harness.0": 253, "same_frame.0": 253}, maxunwind=300,
        under=["mbus_frame_data_parse", "mbus_data_variable_parse", "mbus_data_fixed_parse"]),
    Job("direction", "c11_dispatch.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], unwind=14, under=["mbus_frame_direction", "mbus_frame_data_parse", "mbus_data_fixed_parse"]),
])
CHECKS["C13"] = Check([
    Job("dib-bits", "c13_dib.c", [PC], cmacros=NOSNP, unwind=34, under=["mbus_data_record_storage_number", "mbus_data_record_tariff", "mbus_data_record_device", "mbus_data_record_function"]),
])
CHECKS["C14"] = Check([
    Job("units", "c14_units.c", [PC], cmacros=SNP, unwind=300, under=["mbus_vif_unit_lookup", "mbus_vib_unit_lookup", "mbus_vib_unit_lookup_fb", "mbus_vib_unit_lookup_fd", "mbus_unit_prefix",
            "mbus_unit_duration_nn", "mbus_unit_duration_pp", "mbus_data_variable_medium_lookup", "mbus_data_fixed_medium", "mbus_data_fixed_unit", "mbus_data_fixed_function", "mbus_data_error_lookup", "mbus_dif_datalength_lookup"],
        cases=[("m%d-%d" % (m, lo), ["-DMODE=%d" % m, "-DLO=%d" % lo, "-DHI=%d" % (lo + 63)]) for m in (1, 3, 4) for lo in (0, 64, 128, 192)]
            + [("m2-%d" % lo, ["-DMODE=2", "-DLO=%d" % lo, "-DHI=%d" % (lo + 15)]) for lo in range(0, 256, 16)]),
    Job("plain-text", "c14_units.c", [PC], cmacros=SNP, unwind=300, defs=["-DMODE=5"], under=["mbus_vib_unit_lookup", "mbus_unit_prefix"],
        cases=[("7c", ["-DVIF=0x7C", "-DLO=0", "-DHI=0"])] + [("fc-%02x" % c, ["-DVIF=0xFC", "-DLO=%d" % c, "-DHI=%d" % (c + 1)]) for c in (0, 0x70, 0x72, 0x74, 0x76, 0xF0, 0xF6)]),
])
CPYM = dict(strdup="vp_strdup", VP_POW="1")
CHECKS["C15"] = Check([
    Job("codes", "c15_norm.c", [AX], nsrcs=[PC, SE, TC], cmacros=CPYM, solver="--cvc5", fs=64, defs=["-DMODE=1"], unwind=600, maxunwind=600, under=["mbus_vif_unit_normalize"],
        cases=[("%03x" % b, ["-DLO=%d" % b, "-DHI=%d" % (b + 31)]) for b in list(range(0, 256, 32)) + list(range(256, 384, 32)) + list(range(512, 640, 32))]),
    Job("fixed-codes", "c15_norm.c", [AX], nsrcs=[PC, SE, TC], cmacros=CPYM, solver="--cvc5", fs=64, defs=["-DMODE=2"], unwind=600, maxunwind=600, under=["mbus_fixed_normalize"],
        cases=[("%02x" % b, ["-DLO=%d" % b, "-DHI=%d" % (b + 15)]) for b in (0, 16, 32, 48)]),
    Job("blocks", "c15_norm.c", [AX], nsrcs=[PC, SE, TC], stubs=["mbus_vif_unit_normalize"], cmacros=CPYM, solver="--cvc5", fs=64, defs=["-DMODE=3"], unwind=201, maxunwind=201, under=["mbus_vib_unit_normalize"],
        cases=[("other", [])] + [("e%02x-%d" % (e, c), ["-DVIFE=%d" % e, "-DVC=%d" % c]) for c in (2, 1, 0) for x in (0, 0x80) for e in list(range(0x70 + x, 0x7C + x)) + [0x7D + x]]),
])

# ---- C16 XML escaping, C18 hex text ----------------------------------------------------
CHECKS["C16"] = Check([
    Job("escape-any-length", "c16_xml.c", [PC], cmacros=dict(SNP, **NOCT), defs=["-DBIG=0xFFFFFFFFFFFFul"], unwind=8, under=["mbus_str_xml_encode"],
        cut=dict(src=PC, func="mbus_str_xml_encode", cuts=[dict(depth=0, count=1, hook="vp_cut", prefer=["size_t"], types=["size_t", "size_t"])])),
    Job("escape-short", "c16_xml.c", [PC], cmacros=dict(SNP, **NOCT), defs=["-DSRC=2"], cases=[("m%d" % m, ["-DMFIX=%d" % m]) for m in (1, 2, 6, 7, 8, 11, 12, 13, 18, 19, 22)], unwind=26, under=["mbus_str_xml_encode"]),
])
CHECKS["C18"] = Check([
    Job("hex-any-length", "c18_hex.c", [AX], nsrcs=[PC, SE, TC], macros={}, cmacros=dict(NOCT, strtoul="vp_strtoul"), defs=["-DBIG=0xFFFFFFFFFFFFul"], unwind=5, under=["mbus_hex2bin"],
        cut=dict(src=AX, func="mbus_hex2bin", cuts=[dict(depth=0, count=1, hook="vp_cut", prefer=["size_t"], types=["size_t", "size_t"])])),
    Job("hex-short", "c18_hex.c", [AX], nsrcs=[PC, SE, TC], cmacros=dict(NOCT, strtoul="vp_strtoul"), defs=["-DSRC=8"], unwind=10, under=["mbus_hex2bin"]),
])

# ---- C19 secondary addresses --------------------------------------------------------------
STRM = dict(NOCT, strlen="vp_strlen", strncpy="vp_strncpy", strtol="vp_strtol", **NOSNP)
CHECKS["C19"] = Check([
    Job("is-address", "c19_addr.c", [PC], cmacros=STRM, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=260, under=["mbus_is_secondary_address"]),
    Job("pack", "c19_addr.c", [PC], cmacros=STRM, extra=["vp_snp.c"], defs=["-DMODE=2"], unwind=260, under=["mbus_frame_select_secondary_pack", "mbus_is_secondary_address"]),
    Job("extract", "c19_addr.c", [PC], stubs=["mbus_frame_data_parse"], macros=dict(malloc="vp_malloc", free="vp_free"), cmacros=SNP, defs=["-DMODE=3"], unwind=40, fs=64, under=["mbus_frame_get_secondary_address", "mbus_frame_data_new", "mbus_frame_data_free", "mbus_data_bcd_decode_hex"],
        assumptions=["mbus_frame_data_parse satisfies its contract (C10, C11)"]),
])

# ---- C20..C22 transports ----------------------------------------------------------------
IOM = dict(read="vp_read", write="vp_write", isatty="vp_isatty", tcdrain="vp_tcdrain")
CHECKS["C20"] = Check([
    Job("serial-recv", "c20_link.c", [SE], nsrcs=[PC, AX, TC], macros=IOM, defs=["-DMODE=1"], unwind=4, maxunwind=8, under=["mbus_serial_recv_frame"], fs=64,
        cut=dict(src=SE, func="mbus_serial_recv_frame", cuts=[dict(depth=0, count=1, do=1, prefer=["int"], types=["int", "char[2048]", "ssize_t", "int"])]), assumptions=["mbus_parse satisfies its contract (C01, C02); read, isatty answer as POSIX permits"]),
])
CHECKS["C21"] = Check([
    Job("tcp-recv", "c20_link.c", [TC], nsrcs=[PC, AX, SE], macros=IOM, defs=["-DMODE=2"], unwind=4, maxunwind=8, under=["mbus_tcp_recv_frame"], fs=64,
        cut=dict(src=TC, func="mbus_tcp_recv_frame", cuts=[dict(depth=0, count=1, do=1, prefer=["int"], types=["int", "char[2048]", "ssize_t"])]), assumptions=["mbus_parse satisfies its contract (C01, C02); read answers as POSIX permits; a read is interrupted at most once before it answers"]),
])
CHECKS["C22"] = Check([
    Job("serial-send", "c20_link.c", [SE], nsrcs=[PC, AX, TC], macros=IOM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], unwind=20, under=["mbus_serial_send_frame"], assumptions=["mbus_frame_pack satisfies its contract (C03); write, isatty answer as POSIX permits"]),
    Job("tcp-send", "c20_link.c", [TC], nsrcs=[PC, AX, SE], macros=IOM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=4"], unwind=20, under=["mbus_tcp_send_frame"], assumptions=["mbus_frame_pack satisfies its contract (C03); write answers as POSIX permits"]),
])

# ---- C27, C28 handles -------------------------------------------------------------------
TM = dict(time="vp_time")
CHECKS["C22"].jobs.append(Job("handle-send", "c27_handle.c", [AX, PC], nsrcs=[SE, TC], macros=TM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], unwind=12, under=["mbus_send_frame"]))
CHECKS["C27"] = Check([
    Job("recv", "c27_handle.c", [AX, PC], nsrcs=[SE, TC], macros=TM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=12, under=["mbus_recv_frame", "mbus_frame_direction"], assumptions=["the transport of the handle satisfies its contract (C20, C21)"]),
    Job("purge", "c27_handle.c", [AX, PC], nsrcs=[SE, TC], macros=TM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2"], unwind=12, under=["mbus_purge_frames"], bounded="at most 4 pending frames"),
])
MEMM = dict(malloc="vp_malloc", free="vp_free", calloc="vp_calloc", strdup="vp_strdup")
SERM = dict(open="vp_open", close="vp_close", tcsetattr="vp_tcsetattr", cfsetispeed="vp_cfset", cfsetospeed="vp_cfset")
TCPM = dict(close="vp_close", getaddrinfo="vp_getaddrinfo", freeaddrinfo="vp_freeaddrinfo", gai_strerror="vp_gai", socket="vp_socket", connect="vp_connect", setsockopt="vp_setsockopt")
CHECKS["C28"] = Check([
    Job("serial-context", "c27_handle.c", [AX, SE], nsrcs=[PC, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=4"], unwind=12, fs=64, under=["mbus_context_serial", "mbus_serial_data_free", "mbus_context_free"]),
    Job("tcp-context", "c27_handle.c", [AX, TC], nsrcs=[PC, SE], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=5"], unwind=12, fs=64, under=["mbus_context_tcp", "mbus_tcp_data_free", "mbus_context_free"]),
    Job("options", "c27_handle.c", [AX], nsrcs=[PC, SE, TC], defs=["-DMODE=6"], unwind=140, under=["mbus_context_set_option"]),
    Job("serial-connect", "c27_handle.c", [SE], nsrcs=[PC, AX, TC], macros=SERM, defs=["-DMODE=7"], unwind=40, fs=64, under=["mbus_serial_connect", "mbus_serial_disconnect"]),
    Job("tcp-connect", "c27_handle.c", [TC], nsrcs=[PC, AX, SE], macros=TCPM, cmacros=SNP, defs=["-DMODE=8"], cases=[("n%d" % n, ["-DN=%d" % n]) for n in range(4)], unwind=40, fs=64, under=["mbus_tcp_connect", "mbus_tcp_disconnect"], bounded="at most 3 addresses per host"),
])

# ---- C30 ownership ----------------------------------------------------------------------
MEMM = dict(malloc="vp_malloc", free="vp_free", calloc="vp_calloc", strdup="vp_strdup")
CHECKS["C30"] = Check([
    Job("constructors", "c30_own.c", [PC], nsrcs=[AX, SE, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=260, fs=64, cases=[("w%d" % w, ["-DWHAT=%d" % w]) for w in (1, 2, 3)], under=["mbus_frame_new", "mbus_frame_free", "mbus_data_record_new", "mbus_data_record_free", "mbus_frame_data_new", "mbus_frame_data_free"]),
    Job("frame-chain", "c30_own.c", [PC], nsrcs=[AX, SE, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2", "-DKIND=1"], unwind=12, fs=64, under=["mbus_frame_free"], cut=dict(src=PC, func="mbus_frame_free", rec=1)),
    Job("record-chain", "c30_own.c", [PC], nsrcs=[AX, SE, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2", "-DKIND=2"], unwind=12, fs=64, under=["mbus_data_record_free"], cut=dict(src=PC, func="mbus_data_record_free", rec=1)),
    Job("short-chains", "c30_own.c", [PC], nsrcs=[AX, SE, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], unwind=12, fs=64, under=["mbus_frame_free", "mbus_data_record_free"], bounded="chains of at most 5 elements"),
    Job("append", "c30_own.c", [PC], nsrcs=[AX, SE, TC], macros=MEMM, cmacros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=4"], unwind=12, fs=64, cases=[("n%d" % n, ["-DN=%d" % n]) for n in range(6)], under=["mbus_data_record_append"], bounded="lists of at most 6 records"),
    Job("normalised-record", "c30_own.c", [AX], nsrcs=[PC, SE, TC], macros=MEMM, defs=["-DMODE=5"], unwind=12, fs=64, under=["mbus_record_new", "mbus_record_free"]),
])

# ---- C23 request primitives -----------------------------------------------------------------
_w23 = {1: ("request", "mbus_send_request_frame"), 2: ("ping", "mbus_send_ping_frame"), 3: ("reset", "mbus_send_application_reset_frame"), 4: ("baudrate", "mbus_send_switch_baudrate_frame"),
        5: ("user-data", "mbus_send_user_data_frame"), 6: ("set-address", "mbus_set_primary_address"), 7: ("select", "mbus_send_select_frame")}
CHECKS["C23"] = Check([
    Job(n, "c23_req.c", [AX, PC], nsrcs=[SE, TC], stubs=["mbus_frame_select_secondary_pack", "mbus_error_str_set", "mbus_purge_frames"], macros=dict(malloc="vp_malloc", free="vp_free", calloc="vp_calloc", strdup="vp_strdup"), cmacros=NOSNP, extra=["vp_snp.c"],
        defs=["-DMODE=1", "-DWHAT=%d" % w], unwind=12, fs=64, under=[f, "mbus_send_frame", "mbus_is_primary_address", "mbus_frame_new", "mbus_frame_free"], assumptions=["the transport satisfies its contract (C22)", "mbus_frame_select_secondary_pack satisfies its contract (C19)", "mbus_purge_frames satisfies its contract (C27)"])
    for w, (n, f) in _w23.items()])

# ---- C25 selection and probing ----------------------------------------------------------------
_a25 = ["mbus_send_select_frame, mbus_send_request_frame satisfy their contracts (C23)", "mbus_recv_frame, mbus_purge_frames satisfy their contracts (C27)", "mbus_frame_get_secondary_address satisfies its contract (C19)"]
_s25 = ["mbus_send_select_frame", "mbus_send_request_frame", "mbus_recv_frame", "mbus_purge_frames", "mbus_frame_get_secondary_address", "mbus_error_str_set", "mbus_error_str"]
CHECKS["C25"] = Check([
    Job("select", "c23_req.c", [AX, PC], nsrcs=[SE, TC], stubs=_s25, cmacros=SNP, defs=["-DMODE=2"], unwind=40, fs=64, under=["mbus_select_secondary_address", "mbus_frame_type"], assumptions=_a25),
    Job("probe", "c23_req.c", [AX, PC], nsrcs=[SE, TC], stubs=_s25 + ["mbus_select_secondary_address"], cmacros=SNP, defs=["-DMODE=3"], unwind=40, fs=64, under=["mbus_probe_secondary_address"], assumptions=_a25 + ["at most 9 repetitions are configured (mbus_context_set_option, C28)"]),
    Job("read-slave", "c23_req.c", [AX, PC], nsrcs=[SE, TC], stubs=_s25 + ["mbus_select_secondary_address"], cmacros=SNP, defs=["-DMODE=4"], unwind=40, fs=64, under=["mbus_read_slave"], assumptions=_a25),
])

# ---- C26 scan -------------------------------------------------------------------------------------
CHECKS["C26"] = Check([
    Job("scan-level", "c26_scan.c", [AX], nsrcs=[PC, SE, TC], stubs=["mbus_probe_secondary_address"], macros=dict(free="vp_free", strdup="vp_strdup"), cut=dict(src=AX, func="mbus_scan_2nd_address_range", rec=1), unwind=22, fs=64, under=["mbus_scan_2nd_address_range"],
        assumptions=["mbus_probe_secondary_address satisfies its contract (C25)"]),
])

# ---- C24 request/response exchange ------------------------------------------------------------------
CHECKS["C24"] = Check([
    Job("exchange", "c24_sendrecv.c", [AX, PC], nsrcs=[SE, TC], stubs=["mbus_frame_new", "mbus_frame_free", "mbus_send_frame", "mbus_recv_frame", "mbus_purge_frames", "mbus_frame_data_parse", "mbus_data_record_free", "mbus_error_str_set", "mbus_error_str"],
        macros=dict(malloc="vp_malloc", free="vp_free", calloc="vp_calloc", strdup="vp_strdup"), cmacros=NOSNP, extra=["vp_snp.c"], unwind=12, fs=64, under=["mbus_sendrecv_request", "mbus_is_primary_address"],
        cut=dict(src=AX, func="mbus_sendrecv_request", cuts=[dict(depth=0, count=1, prefer=["int"], types=["int", "int", "int", "int", "int"])]),
        assumptions=["sending, receiving, purging, parsing and allocation satisfy their contracts (C10, C11, C22, C27, C30)", "fewer than 2^31 telegrams", "at most 9 repetitions are configured (mbus_context_set_option, C28)"]),
])

# ---- C29 packing data back ------------------------------------------------------------------------------
_k29 = [("marker", ["-DKIND=1", "-DCUSTOM=0", "-DCLO=0", "-DCHI=0", "-DDLO=0", "-DDHI=239"])] + [("k%d-c%d-%d-d%d-%d" % (k, a, b, c, d), ["-DKIND=%d" % k, "-DCUSTOM=%d" % cu, "-DCLO=%d" % a, "-DCHI=%d" % b, "-DDLO=%d" % c, "-DDHI=%d" % d])
        for k, cu, a, b, c, d in [(3, 0, 0, 0, 0, 8), (3, 1, 0, 60, 0, 8), (3, 1, 61, 127, 0, 8), (2, 0, 0, 0, 1, 120), (2, 0, 0, 0, 121, 239), (2, 1, 0, 60, 1, 120), (2, 1, 0, 60, 121, 239), (2, 1, 61, 127, 1, 120)]]
CHECKS["C29"] = Check([
    Job("error-fixed", "c29_pack.c", [PC], stubs=["mbus_data_variable_parse"], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=1"], unwind=20, unwindset={}, maxunwind=260, under=["mbus_frame_internal_pack", "mbus_frame_data_parse", "mbus_data_fixed_parse"]),
    Job("variable", "c29_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=2"], unwind=252, maxunwind=260, cases=_k29, under=["mbus_frame_internal_pack"],
        cut=dict(src=PC, func="mbus_frame_internal_pack", cuts=[dict(depth=0, count=1, types=["mbus_data_record *"])])),
    Job("lemma-split", "c29_pack.c", [PC], macros=NOSNP, extra=["vp_snp.c"], defs=["-DMODE=3"], unwind=252, maxunwind=260, cases=_k29, under=[], assumptions=["lemma over the contracts of packing and of splitting (C10)"]),
])
del CHECKS["C29"]  # WIP
