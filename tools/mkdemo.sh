#!/bin/bash
# mkdemo.sh ID "sources relative to /repo" [extra flags]: writes seeded/ID/demo.sh for seeded/ID/demo.cpp
D=/verif/seeded/$1
mkdir -p $D
cp -r /verif/shim/mp++ $D/
S=""
for s in $2; do S="$S /repo/$s"; done
cat > $D/demo.sh <<X
#!/bin/bash
# exit 0: the property holds for the demonstration's input
D=\$(cd "\$(dirname "\$0")" && pwd)
O=/tmp/obake_demo_$1
clang++-18 -std=c++20 -O1 -w -DNDEBUG -I "\$D" -include mp++/config.hpp -include fmt/format.h -I /repo/include -I /repo/_build/include $3 "\$D/demo.cpp"$S -o \$O -lfmt -ltbb -lpthread -ldl -lbacktrace 2>/dev/null \\
  || clang++-18 -std=c++20 -O1 -w -DNDEBUG -I "\$D" -include mp++/config.hpp -include fmt/format.h -I /repo/include -I /repo/_build/include $3 "\$D/demo.cpp"$S -o \$O -lfmt -ltbb -lpthread -ldl || exit 3
timeout 200 \$O
r=\$?
rm -f /tmp/obake_demo_$1
exit \$r
X
chmod +x $D/demo.sh
