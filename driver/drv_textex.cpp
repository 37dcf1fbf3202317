// Extraction of the text of pages.  Subsystem "textex".
#include "common_pdf.h"
#include <pdfmm/base/PdfPage.h>
#include <cmath>
using namespace std;
using namespace mm;

namespace {
J num(double v) { return (long long)llround(v * 100); }
void run(const J& c, const Emit& emit)
{
    string file;
    unique_ptr<PdfMemDocument> doc;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op["op"].s;
        if (o == "load") { ev = J::obj(); for (auto& p : op.o) if (p.first != "file") ev.set(p.first, p.second); }
        if (o == "load" || o == "extract")
            ev.set("out", [&] {
                J r = guarded([&]() -> J {
                    J r = J::obj();
                    if (o == "load")
                    {
                        file = unhex(op["file"].s);
                        doc.reset(new PdfMemDocument());
                        doc->LoadFromBuffer(file);
                        return r;
                    }
                    PdfTextExtractParams p { };
                    p.Flags = (PdfTextExtractFlags)op.num("flags");
                    auto& k = op["clip"].a;
                    if (!k.empty()) p.ClipRect = PdfRect((double)k[0].i, (double)k[1].i, (double)k[2].i, (double)k[3].i);
                    vector<PdfTextEntry> es;
                    auto& page = doc->GetPages().GetPageAt((unsigned)op.num("page"));
                    page.ExtractTextTo(es, bytesTo(op["pattern"]), p);
                    J a = J::arr();
                    for (auto& e : es)
                        a.push(J::obj().set("text", bytesOf(e.Text)).set("x", num(e.X)).set("y", num(e.Y)).set("len", num(e.Length)).set("page", e.Page));
                    return r.set("entries", a);
                });
                if (!r.has("err")) r.set("err", "");
                return r;
            }());
        emit(ev);
    }
}
Reg reg("textex", run);
}
