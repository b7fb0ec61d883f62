#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads a description from stdin (sections separated
by lines of ====): needs, what it breaks, old text, new text, demo body.
Writes /verif/seeded/ID.  Several replacements: old/new pairs separated by ----."""
import json, os, subprocess, sys
ident, prop, path = sys.argv[1:4]
needs, breaks, old, new, demo = sys.stdin.read().split("\n====\n")
R = "/tmp/s/repo"
subprocess.check_call("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R, shell=True)
for o, n in zip(old.split("\n----\n"), new.split("\n----\n")):
    f = path
    if o.startswith("@"):
        f, o = o[1:].split("\n", 1)
    s = open(os.path.join(R, f)).read()
    if s.count(o) != 1:
        sys.exit("text occurs %d times in %s:\n%s" % (s.count(o), f, o))
    open(os.path.join(R, f), "w").write(s.replace(o, n))
d = "/verif/seeded/" + ident
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output("cd %s && git diff" % R, shell=True, text=True))
subprocess.check_call("cd %s && git checkout -q -- ." % R, shell=True)
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
demo = demo.strip("\n") + "\n"
if "int main" not in demo:
    demo = "int main() {\n" + demo + "\n  return 0;\n}\n"
open(d + "/demo.cxx", "w").write('''#include "fast_positive/tuples.h"
#include "fast_positive/tuples/legacy.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace fptu;
#define REQUIRE(...)                                                           \\
  do {                                                                         \\
    if (!(__VA_ARGS__)) {                                                      \\
      printf("broken, line %d: %s\\n", __LINE__, #__VA_ARGS__);                 \\
      return 1;                                                                \\
    }                                                                          \\
  } while (0)

''' + demo)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the library behaves, otherwise it doesn't
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -DNDEBUG -w -I. -I_build "$here/demo.cxx" _build/src/libfptu.so -Wl,-rpath,"$PWD/_build/src" -lpthread -o "$tmp/demo" || exit 2
timeout 100 "$tmp/demo"
''')
