#!/usr/bin/env python3
"""A tree of links to the toolchain's own library sources, with std::hash::random changed so that the engine may turn
hashing into a constant function (the order and equality semantics of the maps do not depend on the hash value)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, ".work", "std")
def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
def main():
    src = sysroot() + "/lib/rustlib/src/rust/library"
    dst = OUT + "/library"
    mark = OUT + "/done3"
    if os.path.exists(mark):
        return dst
    subprocess.run(["rm", "-rf", OUT], check=True)
    os.makedirs(OUT)
    subprocess.run(["cp", "-as", src, dst], check=True)
    p = dst + "/std/src/hash/random.rs"
    t = open(p).read()
    a = "    #[inline]\n    fn write(&mut self, msg: &[u8]) {\n"
    b = "    #[inline]\n    fn write_str(&mut self, s: &str) {\n"
    c = "    #[inline]\n    fn finish(&self) -> u64 {\n"
    assert a in t and b in t and c in t
    skip = "        if unsafe { __sym_const_hash() } { return; }\n"
    t = t.replace(a, a + skip).replace(b, b + skip).replace(c, c + "        if unsafe { __sym_const_hash() } { return 0x1234_5678_9abc_def0; }\n")
    t += '\nunsafe extern "C" {\n    fn __sym_const_hash() -> bool;\n}\n'
    os.unlink(p)
    open(p, "w").write(t)
    open(mark, "w").close()
    return dst
if __name__ == "__main__":
    print(main())
