#!/bin/bash
# Simulated clock (C17), allocation counter (C04) and a few locales (C17), in the ignored folder build/.
here=$(cd "$(dirname "$0")/.." && pwd)
b=$here/build
mkdir -p "$b"
for n in clock alloc; do
    if [ ! -e "$b/$n.so" ] || [ "$here/native/$n.c" -nt "$b/$n.so" ]; then
        t=$(mktemp -d "$b/tmp.XXXXXX") && gcc -O1 -shared -fPIC -o "$t/$n.so" "$here/native/$n.c" && mv -f "$t/$n.so" "$b/$n.so"
        rm -rf "$t"
    fi
done
if [ ! -e "$b/locale/done2" ]; then
    t=$(mktemp -d "$b/tmp.XXXXXX")
    for l in de_DE.UTF-8:de_DE:UTF-8 tr_TR.UTF-8:tr_TR:UTF-8 ja_JP.EUC-JP:ja_JP:EUC-JP fr_FR.ISO-8859-1:fr_FR:ISO-8859-1 fa_IR.UTF-8:fa_IR:UTF-8 \
        cs_CZ.ISO-8859-2:cs_CZ:ISO-8859-2 ru_RU.CP1251:ru_RU:CP1251 zh_CN.GBK:zh_CN:GBK; do
        IFS=: read -r name def map <<< "$l"
        localedef -i "$def" -f "$map" "$t/$name" > /dev/null 2>&1
    done
    touch "$t/done2"
    rm -rf "$b/locale"
    mv -T "$t" "$b/locale" 2> /dev/null || rm -rf "$t"
fi
true
