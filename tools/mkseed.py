"""Helper for writing planted bugs: seed( id, property, [( file, old, new ), ...], needs, breaks, demo_cpp )."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
%(cxx)s -std=c++14 %(flags)s -w -I"$here" -I"$here/shim" -I src "$here/demo.cpp" src/system.cpp %(more)s -o "$d/demo" -lpthread -ldl || exit 3
cd "$d" && timeout 200 ./demo
"""
CONFIG = """#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 1
#define LVARRAY_ADDR2LINE_EXEC /usr/bin/addr2line
%s
"""
PRE = """#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#define EXPECT( C ) do { if( !( C ) ) { std::printf( "line %d: %s does not hold\\n", __LINE__, #C ); return 1; } } while( 0 )
"""


def seed(id, prop, edits, needs, breaks, demo, bounds=False, cxx="g++", flags="-O1 -g -fsanitize=address,undefined -fno-sanitize=null,pointer-overflow", more="", config="", shims=()):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    saved = {}
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p).read()
        saved.setdefault(p, s)
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    for p, s in saved.items():
        open(p, "w").write(s)
    assert subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout == ""
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(PRE + demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(cxx=cxx, flags=flags, more=more))
    open(os.path.join(d, "LvArrayConfig.hpp"), "w").write(CONFIG % (("#define LVARRAY_BOUNDS_CHECK\n" if bounds else "") + config))
    shim = os.path.join(d, "shim")
    if os.path.isdir(shim):
        shutil.rmtree(shim)
    for x in ("RAJA", "camp") + tuple(shims):
        shutil.copytree(os.path.join(V, "shim", x), os.path.join(shim, x))
    print("wrote", id)
