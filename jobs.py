"""Jobs per property. Each job: harness entry + parameter list (one engine run per parameter set)."""
def J(name, src, entry, params=({},), stubs=(), flags=(), bounds="", expect=(), **kw):
    return dict(name=name, src=src, entry=entry, params=params if callable(params) else list(params), stubs=list(stubs), flags=list(flags), bounds=bounds, expect=list(expect), **kw)
def P(**kw):
    """cartesian product of keyword lists"""
    out = [{}]
    for k, v in kw.items():
        out = [dict(o, **{k: x}) for o in out for x in v]
    return out
def tiered(quick, thorough):
    return lambda tier: quick if tier == "quick" else quick + [t for t in thorough if t not in quick]
COMMON_ASSUMPTIONS = []
JOBS = {}
META = {}
JOBS["P01"] = [
    J("hexenc", "codec.cpp", "h_hex_encode", tiered(P(n=[0, 1, 5]), P(n=[2, 8, 33, 64])), bounds="all arrays of n bytes, output capacity 2n-2..2n+2"),
    J("hexdec", "codec.cpp", "h_hex_decode", tiered(P(n=[0, 1, 4, 5]), P(n=[6, 7])), bounds="all texts of n characters, capacity 0..n/2+1"),
    J("binenc", "codec.cpp", "h_bin_codec", tiered(P(n=[0, 1, 3]), P(n=[2, 8, 32]))),
    J("bindec", "codec.cpp", "h_bin_decode", tiered(P(n=[0, 1, 8, 9]), P(n=[16, 17]))),
    J("long", "codec.cpp", "h_bin_long", tiered(P(n=[300], pos=[0, 299]), P(n=[300], pos=[256, 257]))),
]
QT = ["--query-timeout", "20"]
def radix(b43):
    B = "43" if b43 else "58"
    return [
    J("enc" + B, "codec.cpp", "h_radix_encode", tiered(P(b43=[b43], n=[0, 1, 2], z=[0]) + P(b43=[b43], n=[3], z=[1, 3]) + P(b43=[b43], n=[7], z=[6]), P(b43=[b43], n=[3], z=[0])), flags=QT),
    J("dec" + B, "codec.cpp", "h_radix_decode", tiered(P(b43=[b43], n=[0, 1, 2]), P(b43=[b43], n=[3])), flags=QT),
    J("long" + B, "codec.cpp", "h_radix_long", tiered(P(b43=[b43], n=[25], z=[0], at=[24]) + P(b43=[b43], n=[25], z=[1, 20], at=[24]) + P(b43=[b43], n=[25], z=[20], at=[20]) + P(b43=[b43], n=[31 if b43 else 45], z=[0], at=[30 if b43 else 44], val=[0]) + P(b43=[b43], n=[300], z=[290], at=[299]), P(b43=[b43], n=[25], z=[0], at=[20, 12]) + P(b43=[b43], n=[82], z=[0], at=[81], val=[0])), flags=QT)]
JOBS["P02"] = radix(0) + [
    J("check", "codec.cpp", "h_b58check", tiered(P(n=[0, 1], rt=[0]) + P(n=[2, 3, 21], pre=[5], rt=[0]), P(n=[34, 78], pre=[4], rt=[0])), stubs=["sha256"], flags=QT),
    J("checkrt", "codec.cpp", "h_b58check", P(n=[0, 1, 21, 78], conc=[1])),
    J("reject", "codec.cpp", "h_b58check_reject", tiered(P(n=[0, 3, 4, 5, 6, 7], cap=[3]), P(n=[8], cap=[3]) + P(n=[6], cap=[0, 2])), stubs=["sha256"], flags=QT),
]
JOBS["P03"] = [
    J("enc64", "codec.cpp", "h_b64_encode", P(n=[0, 1, 2, 3, 4, 6], flags=[0, 1, 2, 3])),
    J("dec64", "codec.cpp", "h_b64_decode", P(n=[0, 1, 2, 3, 4, 5, 8], flags=[0, 1, 2, 3])),
] + radix(1)
JOBS["P04"] = [
    J("ints", "codec.cpp", "h_ints", P(n=list(range(0, 10)) + [32])),
    J("varint", "codec.cpp", "h_varint"),
    J("varread", "codec.cpp", "h_varint_read", P(n=[1, 2, 3, 4, 5, 8, 9, 10])),
]
JOBS["P05"] = [
    J("enc", "addr.cpp", "h_segwit_enc", tiered(P(n=[2, 20], hrp=[0]) + P(n=[1, 3, 32, 40, 41], hrp=[0], maxver=[2]) + P(n=[20, 32], hrp=[1, 2], maxver=[1]), P(n=range(0, 43), hrp=[2]))),
    J("dec", "addr.cpp", "h_segwit_dec", tiered(P(n=[20], hrp=[0], ver=[0], prog=[1], upper=[0, 1]) + P(n=[32], hrp=[1, 2], ver=[1], prog=[1]) + P(n=[2, 5, 40], hrp=[0], ver=[16], prog=[1])
      + P(n=[20], hrp=[0], ver=[0], dist=[1], to=[13]) + P(n=[20], hrp=[0], ver=[0], dist=[1], **{'from': [13], 'to': [26]}) + P(n=[20], hrp=[0], ver=[0], dist=[1], **{'from': [26]}) + P(n=[3], hrp=[2], ver=[5], dist=[2]) + P(n=[4], hrp=[0], ver=[3], dist=[1], upper=[1]), P(n=[32], hrp=[0, 2], ver=[0], dist=range(1, 58)) + P(n=[40], hrp=[2], ver=[7], dist=[1, 2, 3]))),
    J("vals", "addr.cpp", "h_segwit_vals", tiered(P(hrp=[0], g=[1, 2, 4, 5, 32, 33, 52, 53, 63, 64], ver=[99], last=[16]) + P(hrp=[0], g=[4, 52], ver=[0, 1], last=[99]) + P(hrp=[1, 2], g=[32, 53, 61], ver=[1], last=[99]) + P(hrp=[0], g=[32], ver=[99], last=[0], xor=[1, 0x2bc830a3]), P(hrp=[0], g=range(1, 66), ver=[99], last=[16]) + P(hrp=[0], g=range(1, 66), ver=[1], last=[99]))),
    J("text", "addr.cpp", "h_segwit_text", tiered(P(k=[5, 6, 7, 8, 9, 13], hrp=[0]), P(k=[10], hrp=[0]))),
    J("safe", "addr.cpp", "h_bech32_safe", P(n=[0, 7, 8, 9, 10]) + P(n=[86, 90, 91, 100, 300], long=[1])),
]

TC = ["textcodec"]
JOBS["P06"] = [
    J("addr", "script.cpp", "h_script_addr", P(kind=[0, 1, 2, 3], net=[0, 1, 2, 3]), stubs=TC),
    J("real", "script.cpp", "h_script_addr", P(kind=[0, 1], net=[0, 1, 2], conc=[1]) + P(kind=[2, 3], net=[0, 2], conc=[2])),
    J("any", "script.cpp", "h_script_any", P(n=[0, 1, 2, 21, 22, 23, 24, 25, 26, 33, 34, 35], net=[1]), stubs=TC),
    J("b58", "script.cpp", "h_addr_b58", P(n=[0, 1, 20, 21, 22, 25]), stubs=TC),
    J("seg", "script.cpp", "h_addr_segwit", P(n=[2, 20, 32, 40], net=[0, 1, 2]), stubs=TC),
    J("text", "script.cpp", "h_addr_text", P(n=[0, 1, 2, 3, 4, 5]) + P(n=[35, 42, 62, 90, 91, 100, 101, 1000], long=[ord('1'), ord('q'), ord('z')])),
    J("pub", "script.cpp", "h_pub_addr", P(comp=[0, 1], net=[0, 1, 2]), stubs=TC + ["sha256", "rmd160"]),
    J("key", "script.cpp", "h_key_addr", P(kind=[0], comp=[0, 1], net=[0, 1]) + P(kind=[1], type=range(9), net=[1]) + P(kind=[2], type=range(9), net=[2]), stubs=TC + ["sha256", "rmd160", "ec"], expect=["keyaddr"]),
]
JOBS["P07"] = [
    J("tmpl", "script.cpp", "h_templates", P(comp=[0, 1], n=[0, 1, 25, 71]), stubs=["sha256", "rmd160"]),
    J("multi", "script.cpp", "h_multi", P(k=[0, 1, 2, 3], comp=[0, 1]) + P(k=[15, 16, 17], comp=[1])),
    J("sorted", "script.cpp", "h_multi", tiered(P(k=[1, 2, 3], comp=[0, 1], sorted=[1]), P(k=[4], comp=[1], sorted=[1]))),
    J("push", "script.cpp", "h_push", P(op=[0, 1, 2], a=[0, 1, 30], n=[0, 1, 2, 75, 76, 107, 252, 253, 255, 256, 520]) + P(op=[3, 4], a=[0, 2])),
    J("type", "script.cpp", "h_script_any", P(n=[0, 1, 22, 23, 24, 25, 26, 34, 35], net=[1]), stubs=TC),
    J("limit", "script.cpp", "h_push_limit", P(op=[0], n=[9998, 9999, 10000]) + P(op=[1], n=[9998, 9999], k=[1, 2]) + P(op=[1], n=[1], k=[9999, 10000])),
]
HS = ["sha256"]
def stream(name, entry, ps, modes=(0, 1, 2, 3, 4), **kw):
    return [J("%s%d" % (name, m), "tx.cpp", entry, [dict(p, mode=m) for p in ps], **kw) for m in modes]
AC = ["--alloc-cap", "320"]
JOBS["P08"] = (stream("script", "h_stream_script", P(n=[0, 1, 2, 3, 5, 6]), (0, 1, 2, 3), flags=AC) + stream("script", "h_stream_script", P(n=[0, 1, 2, 3]), (4, 5)) + stream("scriptlong", "h_stream_script", P(n=[254, 256, 258], head=[3], b0=[0xfd]) + P(n=[9, 10], b0=[0xfe, 0xff]), (0, 1, 2), flags=AC)
    + stream("wit", "h_stream_witness", P(n=[0, 1, 2]) + P(n=[3, 4, 5], small=[3]), (0, 1, 2, 3)) + stream("wit", "h_stream_witness", P(n=[3, 4], small=[3]), (4, 5))
    + stream("witlong", "h_stream_witness", P(n=[257, 258], head=[4], b0=[1], b1=[0xfd]) + P(n=[7, 11], b0=[1], b1=[0xfe, 0xff]), (0, 1, 2), flags=AC)
    + stream("shape", "h_stream_shape", P(kind=[1], k=[2], len=[11, 32, 13, 54]) + P(kind=[1], k=[3], len=[302, 111]) + P(kind=[1], k=[2], len=[76, 81]) + P(kind=[2], len=[3, 6, 8]) + P(kind=[3], len=[4, 8]) + P(kind=[0], len=[3, 8]), (1, 2)) + stream("shape", "h_stream_shape", P(kind=[1], k=[2], len=[13, 22]), (5,))
    + stream("txin", "h_stream_txin", P(n=[0, 1, 35, 36, 37, 40, 41, 42, 43, 45]), (0, 1, 2, 3)) + stream("txin", "h_stream_txin", P(n=[41], head=[0], tail=[5]), (4,))
    + stream("txout", "h_stream_txout", P(n=[0, 1, 8, 9, 10, 11, 12]), (0, 1, 2, 3)) + stream("txout", "h_stream_txout", P(n=[10], head=[0], tail=[2]), (4,))
    + stream("scalar", "h_stream_scalar", P(n=[0, 1, 31, 32, 33]), (0, 1, 2, 3)) + stream("schnorr", "h_stream_schnorr", P(n=[0, 1, 32, 63, 64, 65]), (0, 1, 2, 3))
    + stream("der", "h_stream_sig", P(n=[0, 1, 2, 3, 5, 6]), (0, 1, 2, 3)) + stream("der", "h_stream_sig", P(n=[3]), (4,)) + stream("derpos", "h_stream_sig", P(rl=[1], sl=[1], pos=range(8)), (0, 1))
    + stream("derlen", "h_stream_sig", P(rl=[1, 2, 31, 32, 33], sl=[1, 32, 33], extra=[0, 1]) + P(rl=[32], sl=[32], tot=[1]), (0, 1, 2)))
def txjobs(name, entry, ps, **kw):
    return J(name, "tx.cpp", entry, ps, **kw)
# shapes: ni/no inputs/outputs, sl/pl/wl digits index script lengths {0,1,2,22,25,34,107,252,253,300}, wn digits = witness elements per input
S1 = P(ni=[1], no=[1], sw=[0], sl=[1], pl=[1]); S2 = P(ni=[2], no=[2], sw=[0], sl=[20], pl=[2]); S3 = P(ni=[1], no=[2], sw=[1], sl=[0], pl=[12], wn=[2], wl=[21]); S4 = P(ni=[2], no=[1], sw=[1], sl=[10], pl=[1], wn=[20], wl=[1])
S5 = P(ni=[3], no=[3], sw=[1], sl=[301], pl=[453], wn=[201], wl=[65]); S6 = P(ni=[1], no=[1], sw=[1], sl=[8], pl=[8], wn=[1], wl=[8]); S7 = P(ni=[1], no=[1], sw=[0], sl=[7], pl=[7]); S8 = P(ni=[1], no=[0], sw=[0], sl=[0], pl=[0])
def wmode(ps, m): return [dict(p, mode=x) for p in ps for x in m]
JOBS["P09"] = [
    J("fields", "tx.cpp", "h_tx_fields", S1 + S2 + S3 + S4 + S5 + S6 + S7 + S8),
    J("build", "tx.cpp", "h_tx_build", [dict(p, form=f) for p in S1 + S2 + S5 for f in (0, 1)] + [dict(p, form=f, content=1) for p in S1 + S2 for f in (2, 3)]),
    J("counts", "tx.cpp", "h_tx_counts", P(ni=[0, 1, 252, 253, 254], no=[1]) + P(ni=[1], no=[0, 252, 253, 254]), stubs=HS),
    J("chunks", "tx.cpp", "h_tx_stream", wmode(S1 + S2 + S3 + S4 + S8, (1, 2))),
    J("reuse", "tx.cpp", "h_tx_stream", [dict(p, part=q) for p in wmode(S1 + S4, (3,)) for q in (0, 6, 20, 50, 60)]),
    J("trunc", "tx.cpp", "h_tx_stream", [dict(p, trunc=1) for p in wmode(S1 + S3 + S4 + S8, (0,))]),
    J("extra", "tx.cpp", "h_tx_stream", [dict(p, extra=e) for p in wmode(S1 + S3, (0, 2)) for e in (1, 5)]),
    J("any", "tx.cpp", "h_tx_any", tiered(P(n=[0, 1, 4, 5, 6], mode=[0, 1], maxcount=[2]) + P(n=[7, 9, 10, 11, 12], mode=[0], maxcount=[2]), P(n=[7, 9, 10, 11, 12], mode=[1], maxcount=[2])), flags=["--alloc-cap", "1024"]),
    J("struct", "tx.cpp", "h_tx_struct", [dict(p, pos=q, content=0) for p in wmode(S3, (0,)) for q in (4, 5, 6, 43, 48, 57, 67, 68, 69, 71)] + [dict(p, pos=q, content=0) for p in wmode(S2, (0,)) for q in (4, 5, 42, 85, 94)]),
]
JOBS["P10"] = [
    J("obj", "tx.cpp", "h_slices", P(kind=[0], n=[1, 2, 6]) + P(kind=[1], n=[5, 8]) + P(kind=[2], n=[41, 43]) + P(kind=[3], n=[9, 11]) + P(kind=[4, 5, 6, 7, 8]) + P(kind=[8], hi=[1])),
    J("tx", "tx.cpp", "h_slices", [dict(p, kind=9, content=1) for p in S1 + S2 + S3 + S4 + S8]),
]
SEG = [dict(p, **{"sl": 0}) for p in S3 + S4 + S5]
JOBS["P11"] = [J("txid", "tx.cpp", "h_txid", S1 + S2 + S3 + S4 + S5 + S6 + S7 + S8, stubs=HS), J("txidstr", "tx.cpp", "h_txid", [dict(p, str=1, content=0) for p in S1 + S3])]
RL = [dict(rl=r) for r in (0, 1, 4, 6, 7, 8)]
JOBS["P12"] = [J("sighash", "tx.cpp", "h_sighash", [dict(p, seg=0, **r) for p in S1 + S2 + S3 + S4 + S5 + S8 for r in RL], stubs=HS)]
JOBS["P13"] = [J("sighash", "tx.cpp", "h_sighash", [dict(p, seg=1, **r) for p in S1 + S2 + S3 + S4 + S5 + S8 for r in RL], stubs=HS)]
SG = S1 + S2 + S4
JOBS["P14"] = [
    J("p2pkh", "tx.cpp", "h_sign", [dict(p, kind=0, comp=c) for p in SG for c in (0, 1)], stubs=HS + ["ecdsa_sign"]),
    J("p2sh", "tx.cpp", "h_sign", [dict(p, kind=1, rl=r) for p in S1 + S2 for r in (1, 5, 6, 8, 9)], stubs=HS + ["ecdsa_sign"]),
    J("p2wpkh", "tx.cpp", "h_sign", [dict(p, kind=k) for p in SG for k in (2, 3)] + [dict(p, kind=2, dflt=1) for p in S1], stubs=HS + ["ecdsa_sign"]),
    J("p2wsh", "tx.cpp", "h_sign", [dict(p, kind=k, rl=r) for p in S2 for k in (4, 5) for r in (1, 5, 6, 8, 9)], stubs=HS + ["ecdsa_sign"]),
]

EC = TC + ["ec"]
HD = TC + ["ec", "sha256", "rmd160", "sha512", "scadd"]
JOBS["P15"] = [
    J("wif", "keys.cpp", "h_wif", P(comp=[0, 1], net=[0, 1, 2]), stubs=EC),
    J("any", "keys.cpp", "h_wif_any", P(n=[0, 1, 32, 33, 34, 35], used=[0, 1]) + P(n=[33, 34], str=[1]), stubs=EC),
    J("secret", "keys.cpp", "h_secret", P(form=[0, 1, 2]), stubs=EC),
    J("ecdh", "keys.cpp", "h_ecdh", P(unc=[0, 1]), stubs=EC + ["sha256"]),
]
JOBS["P16"] = [
    J("sec", "keys.cpp", "h_sec", P(n=[0, 1, 2, 32, 33, 34, 64, 65, 66], mode=[0, 1, 2]) + P(n=[33, 65], mode=[0], used=[1]), stubs=EC),
    J("ctor", "keys.cpp", "h_sec_ctor", P(comp=[0, 1]), stubs=EC),
]
JOBS["P17"] = [
    J("priv", "keys.cpp", "h_ckd_priv", P(hard=[0, 1], form=[0, 1, 3], depth=[2], type=[0]) + P(hard=[1], form=[2], type=[0], depth=[2]) + P(hard=[0, 1], depth=[0, 1, 3], type=[0]), stubs=HD),
    J("meta", "keys.cpp", "h_ckd_meta", P(type=range(9)) + P(type=[0, 8], net=[1, 2, 3]) + P(type=range(9), pub=[1], net=[1]), stubs=HD),
    J("pub", "keys.cpp", "h_ckd_pub", P(hard=[0, 1], form=[0, 1], type=[0]), stubs=HD),
    J("neuter", "keys.cpp", "h_neuter", P(net=[0, 2]), stubs=HD),
    J("master", "keys.cpp", "h_master", P(n=[16, 32, 64], net=[0, 1]), stubs=HD),
    J("steps", "keys.cpp", "h_steps", P(n=[0, 1, 2, 3, 6, 12, 16], pub=[0, 1]), stubs=["derive"]),
]
JOBS["P18"] = [
    J("rt", "keys.cpp", "h_xkey", P(t=range(5), net=[0, 1], pub=[0, 1]) + P(t=[0], net=[2, 3], pub=[0, 1]), stubs=EC),
    J("any", "keys.cpp", "h_xkey_any", P(pub=[0, 1], what=[1, 2, 3]) + P(pub=[0, 1], n=[77, 79, 0, 4, 45]), stubs=EC),
    J("bin", "keys.cpp", "h_xkey_any", P(pub=[0, 1], what=[1, 2, 3], bin=[1], cut=[0, 78]) + P(pub=[0, 1], bin=[1], cut=[3, 4, 5, 12, 13, 45, 46, 77], what=[3]) + P(pub=[0, 1], bin=[1], n=[77, 80], cut=[77]), stubs=EC),
]
JOBS["P19"] = [
    J("path", "keys.cpp", "h_path", tiered(P(pub=[0, 1], n=[0, 1, 2, 3]), P(pub=[0, 1], n=[4, 5])), stubs=["derive"]),
    J("fix", "keys.cpp", "h_path", P(pub=[0, 1], fix=[1]), stubs=["derive"]),
]
SCADD = J("add", "scalar.cpp", "h_scalar_add", tiered(P(op=[0, 2, 3, 4, 5, 6, 7, 8, 9, 10]), P(op=[1])))
JOBS["P20"] = [SCADD, J("sub", "scalar.cpp", "h_scalar_sub", P(m=[0]) + P(m=[1], at=[0, 224], bt=[0, 120], pa=[0, 3], pb=[2, 3])),
    J("parse", "keys.cpp", "h_secret", P(form=[0]), stubs=EC), J("ints", "codec.cpp", "h_ints", P(n=[4, 8, 9, 32])),
    J("mul", "scalar.cpp", "h_scalar_mul", P(op=[0], at=[0, 28, 60, 90, 128, 160, 190, 220, 248], bits=[3, 6], pa=[2], pb=[1, 2, 3], swap=[0, 1]), tier="thorough"),
]
JOBS["P17"].append(J("add", "scalar.cpp", "h_scalar_add", P(op=[6])))

PS = TC + ["ec", "sha256"]
SLOW = (9, 33, 36, 37)
JOBS["P21"] = [
    J("plan", "psbt.cpp", "h_psbt", tiered([dict(plan=p, mode=0) for p in range(50) if p not in SLOW], P(plan=[9, 36, 37], mode=[0])), stubs=PS),
    J("cut", "psbt.cpp", "h_psbt", [dict(plan=p, mode=1, content=1, sl=0, pl=1, cutlo=a, cuthi=a + 39) for p in (1, 4, 12) for a in range(0, 280, 40)], stubs=PS),
    J("bytes", "psbt.cpp", "h_psbt", P(plan=[1, 3, 4, 5, 6, 8], mode=[2], content=[1], sl=[0], pl=[1]), stubs=PS),
    J("reuse", "psbt.cpp", "h_psbt", P(plan=[1, 6], mode=[3], part=[0, 3, 7, 30, 68, 70, 73, 77], content=[1]), stubs=PS),
    J("copy", "psbt.cpp", "h_psbt", P(plan=[0, 1, 4, 6, 7], mode=[0], copy=[1], content=[2]), stubs=PS),
    J("keys", "psbt.cpp", "h_psbt", P(plan=[1, 2, 5, 6, 7, 19], mode=[0], goodkeys=[0]) + P(plan=[1, 2, 7], mode=[0], unc=[1], goodkeys=[0, 1]), stubs=PS),
    J("multi", "psbt.cpp", "h_psbt", P(plan=[50, 51, 52], ni=[2], no=[2], mode=[0], content=[2]) + P(plan=[0], ni=[1, 3], no=[0, 3], mode=[0]), stubs=PS),
    J("prev", "psbt.cpp", "h_psbt", P(plan=[3, 44], mode=[0], psw=[0, 1], pno=[1, 3]), stubs=PS),
    J("any", "psbt.cpp", "h_psbt_any", P(n=range(0, 6), pre=[0], mode=[0, 1]) + P(n=[7, 8, 9], pre=[5], mode=[0, 1]), stubs=PS),
]
JOBS["P22"] = [
    J("slices", "psbt.cpp", "h_psbt_slices", P(plan=[0, 1, 5], content=[1], sl=[0], pl=[1], par=[2]), stubs=PS),
    J("two", "psbt.cpp", "h_psbt_slices", tiered([dict(plan=6, content=1, sl=0, pl=1, par=3, offlo=a, offhi=a + 19) for a in (170, 200)], [dict(plan=6, content=1, sl=0, pl=1, par=3, offlo=a, offhi=a + 19) for a in range(0, 320, 20)]), stubs=PS),
    J("b64", "psbt.cpp", "h_psbt_b64", P(plan=[0], content=[1], short=[0, 1, 2, 3]) + P(plan=[1], content=[0], par=[2], short=[0]) + P(plan=[0], content=[1], bad=[1, 5, 70]), stubs=PS),
]
PG = PS + ["rmd160", "ecdsa_sign", "derive"]
JOBS["P23"] = [
    J("kinds", "psbt.cpp", "h_psbt_sign", P(plan=[68, 69, 55, 57, 58, 60, 67, 74, 75, 76, 77, 78], match=[1], par=[2]) + P(plan=[59], match=[1], pl=[3], psw=[0], par=[3]) + P(plan=[59], match=[1], pl=[5], psw=[1], par=[3]), stubs=PG),
    J("multi", "psbt.cpp", "h_psbt_sign", tiered([dict(plan=56, match=3, matchfp=m, par=2, hp=1, tmpl=1, pc=1) for m in (0, 3)], [dict(plan=56, match=3, matchfp=m, par=2, hp=h, tmpl=1) for m in (0, 3) for h in (0, 1)]), stubs=PG),
    J("two", "psbt.cpp", "h_psbt_sign", tiered([dict(plan=p, ni=2, no=1, match=3, matchfp=3, tmpl=1, par=2, pc=1, hp=h) for p, h in ((73, 0), (73, 1), (73, 3), (62, 0), (63, 1), (63, 3))], [dict(plan=p, ni=2, no=1, match=3, matchfp=3, tmpl=1, par=2, pc=1, hp=h) for p in (61, 62, 63) for h in range(8)]), stubs=PG),
    J("other", "psbt.cpp", "h_psbt_sign", P(plan=[68], match=[0], matchfp=[0, 1], par=[2], tmpl=[1]) + P(plan=[70], match=[0], matchfp=[0], pc=[1], hp=[0], par=[2], tmpl=[1]) + P(plan=[60], match=[0], matchfp=[1], par=[2], hp=[0], tmpl=[1]), stubs=PG),
    J("twice", "psbt.cpp", "h_psbt_sign", P(plan=[69, 56], match=[3], matchfp=[3], twice=[1], tmpl=[1], par=[2], hp=[1], pc=[1]), stubs=PG),
]
JOBS["P24"] = [
    J("fee", "psbt.cpp", "h_psbt_fee", P(plan=[71, 3, 0], ni=[1], no=[1, 2]) + P(plan=[64], ni=[2], no=[0, 1, 2]) + P(plan=[71], ni=[2], no=[1]), stubs=PS),
    J("mine", "psbt.cpp", "h_psbt_mine", P(plan=[0, 66, 2], pub=[0, 1]) + P(plan=[72], pub=[0, 1], par=[2]) + P(plan=[65], pub=[0, 1], par=[2], hp=[0]), stubs=PG),
]
S2 = ["sha256"]
JOBS["P25"] = [
    J("list", "mnemo.cpp", "h_wordlist"),
    J("from", "mnemo.cpp", "h_from_entropy", tiered(P(n=[16], at=[0, 14], k=[1]) + P(n=[16, 24], at=[5], k=[1], sum=[0xff]) + P(n=[20, 28, 32], at=[15], k=[1], sum=[0x85]), P(n=[16], at=[4], k=[2]) + P(n=[16, 20, 24, 28, 32], at=range(0, 16), k=[1])), stubs=["sha256"]),
    J("len", "mnemo.cpp", "h_from_len", P(n=[0, 1, 4, 12, 15, 17, 18, 33, 36])),
    J("refuse", "mnemo.cpp", "h_gen_words"),
    J("gen", "mnemo.cpp", "h_gen", P(n=[0, 1, 16, 70], words=[12, 15, 18, 21, 24], form=[0, 1]) + P(n=[256, 300], words=[12], form=[0, 1]) + P(n=[5], words=[24], form=[2, 3]), stubs=["sha256", "mnemo"]),
    J("small", "mnemo.cpp", "h_short_out", P(words=[12, 15, 24])),
    J("text", "mnemo.cpp", "h_word_text", tiered(P(len=[1, 3, 9, 10, 11, 20]) + P(words=[12], at=[0, 5, 10], len=[5], like=[300], keep=[2]) + P(words=[15, 18, 21, 24], at=[11], len=[4], like=[1600], keep=[2]) + P(words=[12, 15, 18, 21, 24], at=[11], len=[8], like=[2046, 5], keep=[3]) + P(words=[12], at=[11], len=[6, 7], like=[1024], keep=[2]), P(len=[4, 5, 6, 7, 8]))),
    J("sum", "mnemo.cpp", "h_sum", P(words=[12, 15, 18, 21, 24]), stubs=["sha256u"]),
    J("count", "mnemo.cpp", "h_word_count", P(words=[1, 2, 11, 13, 14, 16, 17, 19, 20, 22, 23, 25, 30]) + P(words=[12], bad=[1])),
    J("seed", "mnemo.cpp", "h_seed", tiered(P(ml=[20], pl=[0]) + P(ml=[128], pl=[3], form=[1]) + P(ml=[129], pl=[130], cb=[1]) + P(ml=[24], pl=[5], form=[2]), P(ml=[0, 1, 127, 215], pl=[1, 104, 120]) + P(ml=[150], pl=[9], form=[3])), stubs=["sha512", "ec"]),
    J("cache", "mnemo.cpp", "h_toseed", tiered(P(ml=[3], pl=[2], same=[0, 3]) + P(ml=[250], pl=[4], same=[0], share=[300]) + P(ml=[255], pl=[63], same=[1], share=[300]) + P(ml=[256], pl=[64], same=[1], share=[300]) + P(ml=[3], pl=[1], same=[1]) + P(ml=[3], pl=[1], pl2=[257], same=[1], one=[1]), P(ml=[3], pl=[2], pl2=[3], same=[1]) + P(ml=[255], pl=[64], same=[1], share=[300]) + P(ml=[256], pl=[63], same=[1], share=[300]) + P(ml=[3], pl=[2], same=[2], cb=[1])), stubs=["sha512"]),
]
HASH = ["sha256", "sha512", "rmd160", "hashref"]
L64 = [0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 128, 129]; L128 = [0, 1, 111, 112, 113, 127, 128, 129, 239, 240, 256, 257]
def lens(k): return L128 if k == 2 else L64
JOBS["P26"] = [
    J("compress", "hash.cpp", "h_compress", P(kind=[0, 1, 2]), flags=QT + ["--words"]),
    J("whole", "hash.cpp", "h_hash", [dict(kind=k, n=n, mode=0) for k in range(6) for n in lens(k)] + P(kind=range(6), n=[2, 65], mode=[1, 2]) + P(kind=[0, 1, 2], n=[0, 64, 130], mode=[3]), stubs=HASH),
    J("pieces", "hash.cpp", "h_stream", [dict(kind=k, n=n, mode=m) for k in range(6) for n in (70, 130) for m in (0, 1)] + P(kind=[0, 1, 2], n=[200], mode=[2]) + P(kind=range(6), n=[150], mode=[3]) + P(kind=[2], n=[260], mode=[0]) + P(kind=[0, 1, 2, 3, 4], n=[60], mode=[0], again=[1, 64, 70]), stubs=HASH),
    J("hmac", "hash.cpp", "h_hmac", P(h512=[0], kl=[0, 1, 32, 63, 64, 65, 130], n=[0, 1, 55, 64, 100], mode=[0]) + P(h512=[1], kl=[0, 1, 64, 127, 128, 129, 260], n=[0, 1, 111, 128, 200], mode=[0]) + P(h512=[0, 1], kl=[5, 140], n=[10, 130], mode=[1, 2]), stubs=HASH),
    J("pbkdf2", "hash.cpp", "h_pbkdf2", P(h512=[0, 1], pl=[0, 8, 64, 65, 129], sl=[0, 8, 60], it=[1, 2], kl=[20]) + P(h512=[0, 1], pl=[8], sl=[8, 124], it=[3], kl=[1, 32, 64, 65, 130]) + P(h512=[0, 1], pl=[8], sl=[8], it=[6], kl=[32], split=[1, 2, 5]), stubs=HASH),
    J("rfc6979", "hash.cpp", "h_rfc6979", P(n=[3], bn=[0, 1]), stubs=HASH),
]
SIG = ["opq", "scmul"]
JOBS["P27"] = [
    J("sign", "sign.cpp", "h_sign", tiered(P(comp=[0, 1]) + P(skip=[1]), P(skip=[1], why=[1]) + P(skip=[2])), stubs=SIG, expect=["signed"]),
    J("verify", "sign.cpp", "h_verify", P(comp=[0, 1]), stubs=SIG, expect=["range", "accepted", "refused"]),
    J("key", "sign.cpp", "h_verify_key", P(how=[0, 1]), stubs=SIG, expect=["off"]),
]
JOBS["P28"] = [
    J("sign", "sign.cpp", "h_schnorr_sign", P(comp=[0, 1]), stubs=SIG + ["scadd"], expect=["signed"]),
    J("verify", "sign.cpp", "h_schnorr_verify", P(comp=[0, 1]), stubs=SIG, expect=["range", "no point", "accepted", "refused"]),
    J("key", "sign.cpp", "h_verify_key", P(how=[0, 1]), stubs=SIG, expect=["off"]),
    J("ecdh", "sign.cpp", "h_ecdh", P(comp=[0, 1], hash=[0, 1]), stubs=SIG, expect=["ecdh"]),
]
TOY = ["toy"]
JOBS["P29"] = [
    J("add", "ec.cpp", "h_add", P(how=[0, 1, 2, 3, 4], q=[7]) + P(how=[0], q=[31], bf=[3, 7]) + P(how=[1, 2, 3, 4], q=[31]), stubs=TOY, expect=["sum"]),
    J("jadd", "ec.cpp", "h_jadd", tiered(P(dbl=[0, 1, 2], q=[7]) + P(dbl=[0, 1, 2], q=[31], bf=[7], zf=[1, 33]), P(dbl=[0, 1, 2], q=[31], bf=[3], zf=[5]) + P(dbl=[1, 2], q=[127], bf=[7], zf=[131])), stubs=TOY, expect=["sum"]),
    J("jconv", "ec.cpp", "h_jconv", P(to=[0, 1], q=[7, 31]), stubs=TOY, expect=["conv"]),
    J("lift", "ec.cpp", "h_lift", P(how=[0, 1], q=[7, 31]), stubs=TOY),
    J("table", "ec.cpp", "h_table", expect=["table"]),
    J("recode", "ec.cpp", "h_recode", tiered(P(gen=[0, 1], at=[30, 252], pat=[0, 2], bits=[4]) + P(gen=[0, 1], at=[1], pat=[0, 3], bits=[3]) + P(gen=[0], at=[0], pat=[1], bits=[2]) + P(gen=[1], at=[0], pat=[0], bits=[2]),
                                              P(gen=[0, 1], at=[0], pat=[0, 1, 2, 4], bits=[4]) + P(gen=[0, 1], at=[26, 58, 87, 120, 148, 179, 209, 238], pat=[2, 3], bits=[4])), stubs=["eclog"], expect=["product"]),
]
LIA = ["--lia"]
JOBS["P30"] = [
    J("mul", "bn.cpp", "h_mul", P(order=[0, 1]), flags=LIA, expect=["mul"]),
    J("fastmod", "bn.cpp", "h_fast_mod", P(order=[0, 1]), flags=LIA, expect=["fast_mod"]),
    J("multk", "bn.cpp", "h_mult_k", P(order=[0, 1], k=[0, 2, 3, 4]), flags=LIA, expect=["mult_k"]),
    J("half", "bn.cpp", "h_half", P(order=[0, 1]), flags=LIA, expect=["half"]),
    J("mod", "bn.cpp", "h_mod", P(order=[0, 1]), flags=LIA, expect=["mod"]),
    J("addmod", "bn.cpp", "h_addmod", P(order=[0, 1]), flags=LIA, expect=["addmod"]),
    J("submod", "bn.cpp", "h_submod", P(order=[0, 1], alias=[0, 1, 2]), flags=LIA, expect=["submod"]),
    J("subi", "bn.cpp", "h_subi", P(order=[0, 1]), flags=LIA, expect=["subi"]),
    J("shift", "bn.cpp", "h_shift", [{}], flags=LIA, expect=["shift"]),
    J("inv", "bn.cpp", "h_inv", tiered(P(order=[0, 1], base=[0, 2, 3], n=[6], at=[0, 27, 64, 159, 224, 250]) + P(order=[0, 1], base=[1], n=[4], at=[0, 27, 64, 159, 224]), P(order=[0, 1], base=[0, 2, 3, 4, 5], n=[6], at=[1, 13, 31, 32, 33, 63, 96, 128, 160, 192, 223, 240]) + P(order=[0, 1], base=[1], n=[4], at=[1, 13, 31, 32, 33, 63, 96, 128, 160, 192, 223])), flags=["--tab", "6"], expect=["inverse"]),
    J("sqrt", "bn.cpp", "h_sqrt", [{}], stubs=["expo"], flags=["--tab", "3"], expect=["sqrt"]),
]
ZH = [dict(z=0, hi=0), dict(z=0, hi=1), dict(z=1, hi=1), dict(z=31, hi=0), dict(z=32)]
JOBS["P31"] = [
    J("der", "sig.cpp", "h_der", tiered([dict(p, which=w, d=d) for p in ZH for w in (0, 1) for d in (-1, 0)] + [dict(ZH[0], d=d) for d in (-5, 1, 8)] + [dict(p, m=m) for p in ZH[:2] for m in (0, 1, 8, 40, 70, 72, 80)], [dict(z=z, hi=h, which=w, d=d) for z in range(2, 31, 4) for h in (0, 1) for w in (0, 1) for d in (-1, 0)])),
    J("from", "sig.cpp", "h_from", [dict(p, which=w, how=h) for p in ZH for w in (0, 1) for h in range(3)] + [dict(ZH[1], how=h, extra=3) for h in (0, 1, 2)]),
    J("text", "sig.cpp", "h_from", tiered([dict(z=32, which=w, how=h) for w in (0, 1) for h in (3, 4)] + [dict(p, fix=f, how=h) for p in ZH for f in (0x41, 0xc1) for h in (3, 4)], [dict(p, which=w, how=h) for p in ZH[:4] for w in (0, 1) for h in (3, 4)])),
    J("cut", "sig.cpp", "h_from_short", [dict(z=0, hi=1, how=h, fix=f) for h in (0, 1) for f in (0x41, 0xc1)]),
    J("bin", "sig.cpp", "h_bin", [dict(n=n, m=m) for n in (0, 1, 31, 32, 33, 64, 65, 70) for m in (0, 1, 32, 33, 63, 64, 65, 66, 80)]),
    J("eq", "sig.cpp", "h_eq", P(schnorr=[0, 1])),
    J("schnorr", "sig.cpp", "h_schnorr", P(k=[0, 1, 31, 32, 33, 63, 64])),
]
JOBS["P32"] = [
    J("one", "desc.cpp", "h_desc", [dict(n=n, at=a, m=9) for n in (1, 2, 3, 4, 7) for a in range(n)]),
    J("more", "desc.cpp", "h_desc", [dict(n=n, at=a, sym=k, m=8, bits=8 // k) for n, a, k in ((2, 0, 2), (3, 0, 2), (4, 2, 2), (4, 0, 4), (6, 2, 4), (30, 13, 4), (9, 0, 8), (110, 50, 8))] + [dict(n=n, at=a, sym=4, groups=1, m=8) for n, a in ((4, 0), (5, 0), (6, 1), (6, 2), (12, 3), (31, 26))], flags=["--tab", "8"]),
    J("size", "desc.cpp", "h_desc", P(n=[0, 3], m=[0, 1, 7, 8, 9, 12])),
    J("str", "desc.cpp", "h_desc_str", P(n=[0, 1, 2, 3, 8]) + P(n=[8], at=[6], sym=[2])),
]
EL = [dict(seg=0), dict(seg=1, ver=0x33), dict(seg=0, ni=2), dict(seg=1, ni=2, no=2, ver=0x32)]
JOBS["P33"] = [
    J("whole", "electrum.cpp", "h_electrum", [dict(p, mode=m, copy=1) for p in EL for m in (0, 3)] + [dict(p, mode=3, part=k) for p in EL[:2] for k in (5, 12, 40, 65, 70, 90, 160)], stubs=PS),
    J("cut", "electrum.cpp", "h_electrum", [dict(p, mode=1, content=1, cutlo=a, cuthi=a + 39) for p in EL[:2] for a in range(0, 200, 40)] + [dict(p, mode=2, content=1) for p in EL], stubs=PS),
    J("trunc", "electrum.cpp", "h_electrum", [dict(p, mode=0, content=0, trunc=1) for p in EL[:2]], stubs=PS),
    J("extra", "electrum.cpp", "h_electrum", [dict(p, mode=m, content=1, extra=e) for p in EL for m in (0, 2) for e in (1, 5)], stubs=PS),
    J("prefix", "electrum.cpp", "h_electrum", [dict(EL[1], mode=0, content=0, pos=q, sympos=1) for q in range(6)], stubs=PS),
    J("key", "electrum.cpp", "h_electrum", [dict(p, mode=m, content=0, inkey=k, pos=q, sympos=1) for p, k in ((EL[0], 0), (EL[1], 0), (EL[2], 1), (EL[3], 1)) for m in (0, 2) for q in (0, 1, 2, 3, 45)] + [dict(p, mode=0, content=1, ver=v) for p in EL[:2] for v in range(10)], stubs=PS),
    J("script", "electrum.cpp", "h_electrum", [dict(seg=0, mode=m, content=0, slen=n, ni=k) for m in (0, 2) for n in (0, 1, 83, 86, 88, 200) for k in (1, 2)], stubs=PS),
    J("fee", "electrum.cpp", "h_electrum", [dict(EL[1], mode=0, fee=1, no=n) for n in (0, 1, 2)] + [dict(EL[3], mode=0, fee=1)], stubs=PS),
    J("chunks", "electrum.cpp", "h_electrum_chunks", [dict(p, content=1, cut=a) for p in EL[:2] for a in (3, 30, 69, 80, 120)], stubs=PS),
    J("any", "electrum.cpp", "h_electrum_any", P(n=[0, 1, 5, 6, 7, 10], pre=[6]) + P(n=[3, 6], pre=[0])),
    J("sign", "electrum.cpp", "h_electrum_sign", [dict(p, content=1, match=m) for p in EL[:2] + [dict(seg=1, ver=2)] for m in (0, 1)] + [dict(p, content=0, match=m) for p in EL[2:] for m in (1, 2, 3)], stubs=PG),
]
