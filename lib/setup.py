import concurrent.futures, glob, hashlib, os, subprocess, sys
import vf
from checks import PREBUILD

def main():
    vf.java_classes()
    # the stand-in for SHAKE256 against an independent implementation
    exe = vf.driver("drv_shake")
    r = subprocess.run([exe], capture_output=True, text=True, check=True).stdout.split()
    lens = []
    for k, line in enumerate(r):
        n, out, hexd = line.split(":")
        msg = bytes((7 * j + int(n)) & 255 for j in range(int(n)))
        if hashlib.shake_256(msg).hexdigest(int(out)) != hexd:
            sys.exit(f"SHAKE256 stand-in wrong for length {n}")
        lens.append(int(n))
    print(f"shake256 stand-in: {len(lens)} lengths agree with hashlib")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, var, f in [(n, v, ex.submit(vf.driver, n, v)) for n, v in PREBUILD]:
            try:
                f.result()
                print("built", name, var)
            except vf.Broken as x:
                print(x)   # each check reports it for itself
    r = vf.tlc("MC_BigInt", deadlock=False)
    if not r.ok:
        sys.exit("MC_BigInt: " + r.out[-2000:])
    print("MC_BigInt ok")

main()
