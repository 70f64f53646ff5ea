"""seed(id, property, needs, breaks, [(file, old, new)], demo): writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, tempfile
V = "/verif"
def seed(id, prop, needs, breaks, edits, demo, imports=(), pkg="neffos"):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    diff = ""
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    for f, s in byfile.items():
        os.makedirs(os.path.dirname(os.path.join(w, "a", f)), exist_ok=True)
        os.makedirs(os.path.dirname(os.path.join(w, "b", f)), exist_ok=True)
        shutil.copy("/repo/" + f, os.path.join(w, "a", f))
        open(os.path.join(w, "b", f), "w").write(s)
        diff += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, os.path.join("a", f), os.path.join("b", f)], cwd=w, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    imp = "".join('\t"%s"\n' % i for i in sorted(set(imports) | {"testing"}))
    open(os.path.join(d, "demo_test.go"), "w").write("package " + pkg + "\n\nimport (\n" + imp + ")\n\n" + demo.strip() + "\n")
    shutil.copy(V + "/tools/seedlib/mem_test.go", d)
    shutil.copy(V + "/tools/seedlib/demo.sh", d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
