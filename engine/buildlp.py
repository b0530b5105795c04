"""builds the native part of the numeric domain (engine/domc.cpp) into build/"""
import os, subprocess, sys, sysconfig, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, "engine", "domc.cpp")
DIR = os.path.join(VERIF, "build")
LIB = os.path.join(DIR, "domc" + sysconfig.get_config_var("EXT_SUFFIX"))


def ensure():
    if not (os.path.exists(LIB) and os.path.getmtime(LIB) >= os.path.getmtime(SRC)):
        os.makedirs(DIR, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=DIR, suffix=".tmp")
        os.close(fd)
        subprocess.run(["g++", "-O2", "-std=c++14", "-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], SRC, "-o", tmp], check=True)
        os.replace(tmp, LIB)
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    return LIB


if __name__ == "__main__":
    print(ensure())
