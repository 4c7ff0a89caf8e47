#!/usr/bin/env python3
"""Generated sim/keys.inc once; kept to show where the keys come from.  They are test keys, of no value."""
import re, subprocess, sys
def o(*a, inp=None):
    p = subprocess.run(["openssl", *a], input=inp, capture_output=True)
    if p.returncode: sys.exit(p.stderr.decode())
    return p.stdout.decode()
def c(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
out = ["// made by tools/mkkeys.py: bits, e, n, d, public, PKCS#1, PKCS#8, encrypted PKCS#1, encrypted PKCS#8, PKCS#1 public"]
for bits, e in ((512, 65537), (512, 3), (520, 17), (513, 65537), (767, 3), (769, 65537), (1000, 65537), (1021, 65537), (1024, 3), (1024, 65537), (1023, 17), (1535, 65537), (1536, 65537), (2048, 65537), (2048, 3), (2047, 65537), (3072, 65537), (4096, 65537)):
    k8 = o("genpkey", "-algorithm", "RSA", "-pkeyopt", f"rsa_keygen_bits:{bits}", "-pkeyopt", f"rsa_keygen_pubexp:{e}").encode()
    k1 = o("rsa", "-traditional", inp=k8)
    pub = o("rsa", "-pubout", inp=k8)
    pub1 = o("rsa", "-RSAPublicKey_out", inp=k8)
    enc1 = o("rsa", "-traditional", "-des3", "-passout", "pass:secret", inp=k8)
    enc8 = o("pkcs8", "-topk8", "-v2", "aes-128-cbc", "-passout", "pass:secret", inp=k8)
    t = o("rsa", "-text", "-noout", inp=k8)
    def num(name):
        m = re.search(name + r":\n((?:\s+[0-9a-f:]+\n)+)", t)
        return re.sub(r"[^0-9a-f]", "", m.group(1)).lstrip("0")
    out.append("{%d, %d, %s, %s, %s, %s, %s, %s, %s, %s}," % (bits, e, c(num("modulus")), c(num("privateExponent")), c(pub), c(k1), c(k8.decode()), c(enc1), c(enc8), c(pub1)))
ec = o("ecparam", "-name", "prime256v1", "-genkey", "-noout")
ed = o("genpkey", "-algorithm", "ed25519")
extra = [ec, o("pkcs8", "-topk8", "-nocrypt", inp=ec.encode()), o("ec", "-pubout", inp=ec.encode()), ed, o("pkey", "-pubout", inp=ed.encode())]
open("sim/keys.inc", "w").write("#ifdef WANT_RSA_KEYS\n" + "\n".join(out) + "\n#else\n" + ",\n".join(c(x) for x in extra) + "\n#endif\n")
