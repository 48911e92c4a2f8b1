L="crates/decy-core/src/lib.rs"
D="crates/decy/src/main.rs"
R="crates/decy-parser/src/parser.rs"
HEAD='''d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
decy=/opt/vp/ws/target/debug/decy
mkdir -p "$d/src"
'''
B=[
dict(id="p13-hash-prefix", property="P13", file=L,
 old="        hasher.update(&content);",
 new="        hasher.update(&content[..content.len().min(1 << 16)]);",
 needs="a source of more than 64 KiB that changes near its end between two incremental runs", breaks="the stale translation is taken from the cache",
 demo=HEAD+'''{ echo 'int first(void) { return 1; }'; for i in $(seq 1500); do echo "/* filler line $i, so that the file gets large enough to matter */"; done; echo 'int last(void) { return 41; }'; } > "$d/src/a.c"
$decy transpile-project "$d/src" -o "$d/out" > "$d/log" 2>&1 || { cat "$d/log"; exit 4; }
grep -q 41 "$d/out/a.rs" || exit 5
sed -i 's/return 41/return 42/' "$d/src/a.c"
$decy transpile-project "$d/src" -o "$d/out" > "$d/log" 2>&1 || { cat "$d/log"; exit 4; }
grep -q 42 "$d/out/a.rs" || { echo "stale translation"; exit 1; }
''', files={}),
dict(id="p12-dry-run-cache-dir", property="P12", file=D,
 old="    if !dry_run {\n        fs::create_dir_all(&cache_dir)?;",
 new="    if use_cache || !dry_run {\n        fs::create_dir_all(&cache_dir)?;",
 needs="a dry run with caching on in a project that was never translated", breaks="the dry run creates the cache directory inside the project",
 demo=HEAD+'''echo 'int f(void) { return 1; }' > "$d/src/a.c"
before=$(cd "$d/src" && find . | sort)
$decy transpile-project "$d/src" -o "$d/out" --dry-run > /dev/null 2>&1 || exit 4
after=$(cd "$d/src" && find . | sort)
[ "$before" = "$after" ] && [ ! -e "$d/out" ] || { echo "dry run wrote: $after"; exit 1; }
''', files={}),
dict(id="p11-save-warning", property="P11", file=D,
 old="        cache.save()?;",
 new="        if let Err(e) = cache.save() {\n            if verbose {\n                eprintln!(\"Warning: cache not saved: {}\", e);\n            }\n        }",
 needs="saving the cache fails (the cache file cannot be written) after a successful translation", breaks="the command reports success although the cache was not saved",
 demo=HEAD+'''echo 'int f(void) { return 1; }' > "$d/src/a.c"
mkdir -p "$d/src/.decy/cache"
ln -s "$d/nowhere/cache.json" "$d/src/.decy/cache/cache.json"
if $decy transpile-project "$d/src" -o "$d/out" > "$d/log" 2>&1; then echo "success reported"; exit 1; fi
grep -qi cache "$d/log" || { cat "$d/log"; exit 4; }
''', files={}),
dict(id="p10-many-warnings", property="P10", file=R,
 old="        let diagnostics = extract_diagnostics(tu, source, None);\n        if diagnostics.iter().any(|d| d.severity >= Severity::Error) {",
 new="        let diagnostics = extract_diagnostics(tu, source, None);\n        if diagnostics.iter().take(10).any(|d| d.severity >= Severity::Error) {",
 needs="more than ten warnings before the first error", breaks="a source with an error is translated",
 demo='''here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
{ for i in $(seq 14); do echo "int f$i(void) { }"; done; echo 'int g(void) { return undeclared_name; }'; } > "$d/a.c"
if /opt/vp/ws/target/debug/decy transpile "$d/a.c" > "$d/r.rs" 2> "$d/err"; then echo "translated"; exit 1; fi
for i in $(seq 14); do echo "int f$i(void) { }"; done > "$d/b.c"
/opt/vp/ws/target/debug/decy transpile "$d/b.c" > "$d/r.rs" 2> "$d/err" || { echo "warnings alone were refused"; exit 1; }
''', files={}),
]
