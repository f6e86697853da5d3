#!/bin/bash
# check.sh <property> [quick|thorough]        run a check
# check.sh <property> --replay <file>         run one recorded case again
# Compiles /repo's current sources together with the harness into a scratch directory, runs, cleans up.
# check.sh --setup                            only compile, as a self-test (checks keep nothing between runs)
# exit 0: held; 1: VIOLATION line; 2: the check itself failed
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
prop=${1:?property}
mode=${2:-quick}
export JAVA_HOME=/usr/lib/jvm/java-21-openjdk-amd64
export PATH="$JAVA_HOME/bin:$PATH" LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
unset JAVA_TOOL_OPTIONS _JAVA_OPTIONS JDK_JAVA_OPTIONS
out=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$out"' EXIT
trap 'exit 2' INT TERM
g=/root/.gradle/caches/modules-2/files-2.1
libs=
for group in org.antlr/antlr4-runtime io.vavr com.github.ben-manes.caffeine org.apache.maven/maven-artifact org.apache.commons/commons-lang3 org.codehaus.plexus org.projectlombok \
    org.checkerframework com.google.errorprone; do
  for jar in $(find "$g/$group" -name '*.jar' ! -name '*sources*' ! -name '*javadoc*' | sort); do
    libs="$libs:$jar"
  done
done
libs=${libs#:}
asm=/opt/veriftools/java/bytecode/asm-9.7.1.jar
mkdir -p "$out/code" "$out/run"
find "$repo/src/main/java" -name '*.java' >"$out/sources"
find "$here/harness/src/verif" -name '*.java' >>"$out/sources"
javac -nowarn -proc:full -d "$out/run" -cp "$asm" "$here"/harness/src/verifrun/*.java >"$out/log2" 2>&1 &
pid=$!
if ! javac -nowarn -encoding UTF-8 -J-XX:+UseSerialGC -J-XX:TieredStopAtLevel=1 -proc:full -d "$out/code" -cp "$libs" -processorpath "$libs" @"$out/sources" >"$out/log" 2>&1; then
  cat "$out/log" >&2
  wait $pid
  exit 2
fi
wait $pid || { cat "$out/log2" >&2; exit 2; }
if [ "$prop" = --setup ]; then
  echo "harness and /repo compile"
  exit 0
fi
if [ "$mode" = --replay ]; then
  args=("$prop" replay "${VERIF_SEED:-1}" "$out/code" "$here" "${3:?replay file}")
else
  args=("$prop" "$mode" "${VERIF_SEED:-1}" "$out/code" "$here")
fi
opens=
for m in java.lang java.lang.invoke java.util java.util.concurrent java.util.concurrent.atomic java.util.concurrent.locks java.util.function java.util.regex java.util.stream java.math java.time java.time.format java.text; do
  opens="$opens --add-opens java.base/$m=ALL-UNNAMED"
done
java -Xmx${VERIF_XMX:-4g} $opens -XX:+UseParallelGC -Xshare:auto -Duser.language=en -Duser.country=US -Duser.timezone=UTC ${VERIF_JAVA_OPTS:-} -cp "$out/run:$asm:$libs" verifrun.Main "${args[@]}"
status=$?
[ $status -eq 0 ] || [ $status -eq 1 ] || status=2
exit $status
