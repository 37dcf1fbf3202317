import os, json, subprocess, shutil
def seed(id, prop, edits, needs, breaks, demo, script=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = ""
    for f, old, new in edits:
        p = "/repo/src/pdfmm/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        o = "/tmp/mkseed.new"; open(o, "w").write(s.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", p, o], capture_output=True, text=True).stdout
        rel = "src/pdfmm/" + f
        lines = r.split("\n")
        i = next(k for k, l in enumerate(lines) if l.startswith("---"))
        lines = ["diff --git a/%s b/%s" % (rel, rel), "--- a/" + rel, "+++ b/" + rel] + lines[i + 2:]
        diff += "\n".join(lines)
    open(d + "/patch.diff", "w").write(diff)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    open(d + "/demo.cpp", "w").write(demo)
    shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "ok")
H = '#include <pdfmm/pdfmm.h>\n#include <pdfmm/base/PdfMemDocument.h>\n#include <iostream>\nusing namespace mm; using namespace std;\n#define CHECK(c) do { if (!(c)) { cerr << "FAILED: " #c << endl; return 1; } } while (0)\n'
