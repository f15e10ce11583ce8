#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make and validate planted bugs.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ body of main; use CHECK(cond)).
Everything happens in a scratch copy under /tmp; /verif/seeded/<ID> is written when the demo separates the two trees."""
import sys, os, subprocess, shutil, json, tempfile
DEMO_SH = '''#!/bin/bash
# exit 0 on a correct tree, nonzero when the behaviour is broken
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
F="-g -O1 -w -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined -Isrc -DUSE_STDONLY -DUBTC_TEST"
ls src/utility/trezor/*.c src/utility/*.c | xargs -P 8 -I{} sh -c 'gcc '"$F"' -c {} -o '"$w"'/$(basename {}).o' || exit 2
ls src/*.cpp | xargs -P 8 -I{} sh -c 'g++ '"$F"' -std=c++17 -c {} -o '"$w"'/$(basename {}).o' || exit 2
g++ $F -std=c++17 "$here/demo.cpp" "$w"/*.o -o "$w/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$w/demo"
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include "Bitcoin.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Conversion.h"
#include "Hash.h"
extern "C" {
#include "utility/segwit_addr.h"
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
#include "utility/trezor/sha2.h"
#include "utility/trezor/hmac.h"
#include "utility/trezor/pbkdf2.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/bip39.h"
#include "utility/trezor/rfc6979.h"
}
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main():
    bad = 0
    todo = []
    for spec in sys.argv[1:]:
        if spec.startswith("+"): continue
        g = {}; exec(open(spec).read(), g)
        todo += g["SPECS"] if "SPECS" in g else [g]
    only = [a[1:] for a in sys.argv[1:] if a.startswith("+")]
    for g in todo:
        if only and g["ID"] not in only: continue
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            r = os.path.join(tmp, "repo"); shutil.copytree(os.environ.get("SEED_REPO", "/repo"), r, symlinks=True)
            d = os.path.join(tmp, "demo"); os.makedirs(d)
            open(d + "/demo.cpp", "w").write(PRE + g.get("PREAMBLE", "") + "int main() {\n" + g["DEMO"] + "\n  return 0;\n}\n")
            open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
            a = sh("bash %s/demo.sh" % d, cwd=r)
            if a.returncode != 0: print(g["ID"], "demo fails on the clean tree", a.stdout.decode(errors="replace")[-1500:]); bad += 1; continue
            for f, old, new in g["EDITS"]:
                s = open(os.path.join(r, f)).read(); n = s.count(old)
                if n != 1: raise SystemExit("%s: %d matches in %s for %r" % (g["ID"], n, f, old))
                open(os.path.join(r, f), "w").write(s.replace(old, new))
            b = sh("bash %s/demo.sh" % d, cwd=r)
            if b.returncode == 0: print(g["ID"], "demo passes with the patch"); bad += 1; continue
            if b.returncode == 2 and b"error:" in b.stdout: print(g["ID"], "does not build", b.stdout.decode()[-1500:]); bad += 1; continue
            t = sh("make -C tests -f /opt/vp/tests.mk -j8 BUILD_DIR=%s/tb CC=gcc CXX=g++ all >/dev/null 2>&1 || echo BUILDFAIL; for t in %s/tb/*.test; do VP_LOG=%s/log.$(basename $t) timeout 60 $t >/dev/null 2>&1; done; cat %s/log.*" % (tmp, tmp, tmp, tmp), cwd=r).stdout.decode(errors="replace")
            if "BUILDFAIL" in t or "FAIL " in t or t.count("PASS ") < 10: print(g["ID"], "tests fail:", t[-800:]); bad += 1; continue
            diff = subprocess.run(["git", "diff", "--", "src"], cwd=r, stdout=subprocess.PIPE).stdout
            out = os.environ.get("SEED_OUT", "/verif/seeded/") + "/" + g["ID"]; os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "wb").write(diff)
            for f in ("demo.cpp", "demo.sh"): shutil.copy(d + "/" + f, out + "/" + f)
            json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
            print(g["ID"], "ok;", b.stdout.decode(errors="replace").strip().splitlines()[:1])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad
sys.exit(main())
