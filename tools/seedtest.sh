#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy (builds, tests pass, demo 0/nonzero).
for id in "$@"; do
  d=/verif/seeded/$id
  s=/tmp/seedtest-$$; rm -rf "$s"; cp -a /repo "$s"
  cd "$s"
  # demo on the unchanged tree
  mkdir -p /tmp/seeddemo-$$; cp -r $d/. /tmp/seeddemo-$$/; rm -f /tmp/seeddemo-$$/*.diff /tmp/seeddemo-$$/meta.json
  ( cd $s && bash /tmp/seeddemo-$$/demo.sh >/tmp/seeddemo-$$.log 2>&1 ); r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ok=built
  cmake -S /opt/vp/cmake -B $s/_b2 -G Ninja -DREPO=$s -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -g" >/dev/null 2>&1 && ninja -k 0 -C $s/_b2 >/tmp/seeddemo-$$.build 2>&1 || ok=BUILDFAIL
  t=0; f=0
  for e in $(find $s/_b2 -maxdepth 2 -type f -executable -name 'test_*' ! -name '*performance'); do $e >/tmp/seeddemo-$$.t 2>&1; p=$(grep -c '\[       OK' /tmp/seeddemo-$$.t); q=$(grep -c '^\[  FAILED  \].*(' /tmp/seeddemo-$$.t); t=$((t+p)); f=$((f+q)); done
  ( cd $s && bash /tmp/seeddemo-$$/demo.sh >/tmp/seeddemo-$$.log2 2>&1 ); r1=$?
  echo "$id: demo clean=$r0 patched=$r1 $ok tests ok=$t failed=$f"
  [ $r0 = 0 ] || tail -5 /tmp/seeddemo-$$.log
  [ $r1 != 0 ] || tail -5 /tmp/seeddemo-$$.log2
  rm -rf "$s" /tmp/seeddemo-$$ /tmp/seeddemo-$$.*
done
