"""Helper to plant a bug in C++, with a demonstration in C++.

plant(id, prop, edits, needs, breaks, demo_cc, sources, ...) as in mkbug.py; the
demonstration is compiled with the sources, which are relative to /repo. What the
sandbox does not have is taken from copies of cpp/shim, cpp/shim17 beside it.
"""

import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkbug

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right.
D=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 2
T=$(mktemp -d) || exit 2
trap 'find "$T" -delete' EXIT
for p in @PROTOS@; do
  protoc -I/repo --cpp_out="$T" $p || exit 2
done
# Lets the string views of the installed Abseil be those of C++17.
mkdir -p "$T/absl/strings"
sed -e 's/#include <string>/&\\n#include <string_view>/' -e '/^class string_view {/,/public:/ s/^ public:/ public:\\n  operator std::string_view() const { return {ptr_, length_}; }/' \\
  /usr/include/absl/strings/string_view.h > "$T/absl/strings/string_view.h"
i=0
for s in "$D/demo.cc" @SOURCES@; do
  [ -e "$s" ] || s="$T/$s"
  i=$((i + 1))
  g++ -std=c++17 -O0 -w -DEXPAND=EXPAND_FILTER -include absl/types/span.h @FLAGS@\\
    -I"$T" -I"$D/shim17" -I"$D/shim" -I/repo -c "$s" -o "$T/$i.o" &
done
wait
ls "$T"/*.o | wc -l | grep -qx $i || exit 2
L=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's/.*lib\\(absl_.*\\)\\.so/-l\\1/')
g++ "$T"/*.o -o "$T/demo" -Wl,--as-needed $L @LIBS@ -lpthread -ldl || exit 2
cd "$T" && timeout 120 ./demo
'''


def plant(id, prop, edits, needs, breaks, demo, sources=(), libs='', protos=(),
          mutex=False):
  mkbug.plant(id, prop, edits, needs, breaks, '')
  d = os.path.join(mkbug.SEEDED, id)
  os.unlink(os.path.join(d, 'demo.py'))
  sh = SH.replace('@PROTOS@', ' '.join(protos) or '""').replace(
      '@SOURCES@', ' '.join(sources)).replace('@LIBS@', libs).replace('@FLAGS@', '-I"$D/tsan" -include '
                                       'absl/synchronization/mutex.h '
                                       if mutex else '')
  if not protos:
    sh = sh.replace('for p in ""; do\n  protoc -I/repo --cpp_out="$T" $p || '
                    'exit 2\ndone\n', '')
  with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write(sh)
  with open(os.path.join(d, 'demo.cc'), 'w') as f:
    f.write(demo)
  for s in ('shim', 'shim17') + ('tsan',) * mutex:
    shutil.copytree(os.path.join(VERIF, 'cpp', s), os.path.join(d, s),
                    dirs_exist_ok=True)
