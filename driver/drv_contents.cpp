// Reading of contents: operators, inline images, forms.  Subsystem "contents".
#include "common_pdf.h"
#include <pdfmm/base/PdfContentsReader.h>
#include <pdfmm/base/PdfOperatorUtils.h>
#include <pdfmm/base/PdfCanvasInputDevice.h>
#include <pdfmm/base/PdfXObject.h>
#include <pdfmm/base/PdfPage.h>
using namespace std;
using namespace mm;

J tagOf(const PdfVariant& v);

namespace {
J warnOf(PdfContentWarnings w)
{
    J a = J::arr();
    auto has = [&](PdfContentWarnings x) { return (w & x) != PdfContentWarnings::None; };
    if (has(PdfContentWarnings::InvalidOperator)) a.push("few");
    if (has(PdfContentWarnings::SpuriousStackContent)) a.push("spurious");
    if (has(PdfContentWarnings::InvalidXObject)) a.push("xobject");
    if (has(PdfContentWarnings::RecursiveXObject)) a.push("recursive");
    if (has(PdfContentWarnings::InvalidImageDictionaryContent)) a.push("imgdict");
    if (has(PdfContentWarnings::MissingEndImage)) a.push("missingEI");
    return a;
}
struct World
{
    unique_ptr<PdfMemDocument> doc;
    string file;          // the loaded file, kept alive
    string raw;
    unique_ptr<PdfContentsReader> reader;
    PdfContent content;
    J handled = J::arr();
    unique_ptr<PdfCanvasInputDevice> cdev;

    J open(const J& op)
    {
        auto& objs = op["objs"].a;
        PdfMemDocument d;
        auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
        vector<PdfObject*> x;
        for (auto& o : objs)
        {
            auto& obj = d.GetObjects().CreateDictionaryObject();
            x.push_back(&obj);
            auto& dict = obj.GetDictionary();
            string k = o.str("k");
            if (o.num("type")) dict.AddKey("Type", PdfName("XObject"));
            dict.AddKey("Subtype", PdfName(k == "form" ? "Form" : k == "image" ? "Image" : k == "ps" ? "PS" : "Nonsense"));
            if (k == "image")
            {
                dict.AddKey("Width", PdfObject((int64_t)1)); dict.AddKey("Height", PdfObject((int64_t)1));
                dict.AddKey("ColorSpace", PdfName("DeviceGray")); dict.AddKey("BitsPerComponent", PdfObject((int64_t)8));
            }
            if (k == "form")
            {
                PdfArray a; for (int i : { 0, 0, 9, 9 }) a.Add(PdfObject((int64_t)i));
                dict.AddKey("BBox", a);
            }
        }
        auto res = [&](const J& r)
        {
            PdfDictionary xo;
            for (auto& p : r.a) xo.AddKey(PdfName::FromRaw(bytesTo(p.a[0])), x[(size_t)p.a[1].i - 1]->GetIndirectReference());
            PdfDictionary rd;
            rd.AddKey("XObject", xo);
            return rd;
        };
        bool flate = op.num("flate") != 0;
        auto fill = [&](PdfObject& obj, const string& b)
        {
            auto& s = obj.GetOrCreateStream();
            if (flate) s.SetData(b); else s.SetData(b, PdfFilterList());
        };
        for (size_t i = 0; i < objs.size(); i++)
        {
            if (objs[i].str("k") == "form") x[i]->GetDictionary().AddKey("Resources", res(objs[i]["res"]));
            fill(*x[i], bytesTo(objs[i]["b"]));
        }
        auto& pd = page.GetObject().GetDictionary();
        pd.AddKey("Resources", res(op["res"]));
        auto& parts = op["parts"].a;
        raw.clear();
        if (parts.size() == 1 && op.num("single"))
        {
            auto& c = d.GetObjects().CreateDictionaryObject();
            fill(c, bytesTo(parts[0]));
            pd.AddKeyIndirect("Contents", c);
        }
        else
        {
            PdfArray a;
            for (auto& p : parts)
            {
                auto& c = d.GetObjects().CreateDictionaryObject();
                fill(c, bytesTo(p));
                a.Add(c.GetIndirectReference());
            }
            pd.AddKey("Contents", a);
        }
        file.clear();
        {
            StringStreamDevice dev(file);
            d.Save(dev, PdfSaveOptions::NoModifyDateUpdate);
        }
        doc.reset(new PdfMemDocument());
        doc->LoadFromBuffer(file);
        auto& pg = doc->GetPages().GetPageAt(0);
        if (op["op"].s == "copen")
        {
            cdev.reset(new PdfCanvasInputDevice(pg));
            return J::obj();
        }
        PdfContentReaderArgs args;
        string f = op.str("flags");
        if (f.find('t') != string::npos) args.Flags |= PdfContentReaderFlags::ThrowOnWarnings;
        if (f.find('d') != string::npos) args.Flags |= PdfContentReaderFlags::DontFollowXObjectForms;
        if (f.find('h') != string::npos)
            args.InlineImageHandler = [this](const PdfDictionary& dict, InputStreamDevice& dev) -> bool {
                char ch;
                if (!dev.Read(ch)) return false;
                auto* l = dict.FindKey("L");
                size_t n = l == nullptr ? 0 : (size_t)l->GetNumber();
                string b(n, '\0');
                size_t got = 0; bool eof = false;
                // blocks and single characters
                while (got < n && !eof)
                {
                    size_t k = min<size_t>(n - got, 3);
                    if (got % 2) { if (!dev.Read(b[got])) break; got++; }
                    else got += dev.Read(b.data() + got, k, eof);
                }
                b.resize(got);
                handled = J::obj().set("d", tagOf(PdfVariant(dict))).set("b", bytesOf(b));
                return got == n;
            };
        if (op.str("mode") == "device")
        {
            for (size_t i = 0; i < parts.size(); i++) { if (i) raw += '\n'; raw += bytesTo(parts[i]); }
            reader.reset(new PdfContentsReader(make_shared<SpanStreamDevice>(raw), args));
        }
        else
            reader.reset(new PdfContentsReader(pg, args));
        return J::obj();
    }
    J next(const J&)
    {
        handled = J::arr();
        bool more = reader->TryReadNext(content);
        J r = J::obj();
        r.set("more", more);
        r.set("handled", handled);
        if (!more) return r;
        J st = J::arr();
        for (auto it = content.Stack.rbegin(); it != content.Stack.rend(); ++it) st.push(tagOf(*it));
        // the other ways of reading the stack agree
        for (unsigned i = 0; i < content.Stack.GetSize(); i++)
            if (tagOf(content.Stack[i]).dump() != st.a[st.a.size() - 1 - i].dump()) st.push("inconsistent");
        r.set("stack", st);
        r.set("warn", warnOf(content.Warnings));
        string kw(content.Keyword);
        switch (content.Type)
        {
            case PdfContentType::Operator:
            {
                r.set("type", "op").set("kw", bytesOf(kw));
                string_view n;
                r.set("agrees", TryGetPdfOperatorName(content.Operator, n) && n == kw);
                break;
            }
            case PdfContentType::UnexpectedKeyword: r.set("type", "unk").set("kw", bytesOf(kw)); break;
            case PdfContentType::ImageDictionary: r.set("type", "imgdict").set("d", tagOf(PdfVariant(content.InlineImageDictionary))); break;
            case PdfContentType::ImageData: r.set("type", "imgdata").set("b", bytesOf(string_view(content.InlineImageData.data(), content.InlineImageData.size()))); break;
            case PdfContentType::DoXObject:
            {
                r.set("type", "do");
                if (content.Name == nullptr || content.XObject == nullptr) { r.set("name", J::arr()).set("k", "none"); break; }
                r.set("name", bytesOf(content.Name->GetRawData()));
                auto t = content.XObject->GetType();
                r.set("k", t == PdfXObjectType::Form ? "form" : t == PdfXObjectType::Image ? "image" : t == PdfXObjectType::PostScript ? "ps" : "?");
                r.set("xb", content.XObject->GetObject().HasStream() ? bytesOf(string(content.XObject->GetObject().MustGetStream().GetCopy())) : J::arr());
                break;
            }
            case PdfContentType::EndXObjectForm: r.set("type", "end"); break;
            default: r.set("type", "?");
        }
        return r;
    }
    // reads of contents as a device
    J cread(const J& op)
    {
        string m = op.str("m");
        J r = J::obj();
        if (m == "ch")
        {
            char ch = 0;
            bool ok = cdev->Read(ch);
            return r.set("b", ok ? bytesOf(string(1, ch)) : J::arr()).set("eof", !ok);
        }
        if (m == "peek")
        {
            char ch = 0;
            bool ok = cdev->Peek(ch);
            return r.set("b", ok ? bytesOf(string(1, ch)) : J::arr()).set("eof", !ok);
        }
        string b((size_t)op.num("n"), '\0');
        bool eof = true;      // the call decides
        size_t got = cdev->Read(b.data(), b.size(), eof);
        b.resize(got);
        return r.set("b", bytesOf(b)).set("eof", eof);
    }
};

void run(const J& c, const Emit& emit)
{
    World w;
    for (auto& op : c["ops"].a)
    {
        auto once = [&](J ev) -> bool {
            string o = ev["op"].s;
            J r = guarded([&]() -> J {
                if (o == "open" || o == "copen") return w.open(ev);
                if (o == "next") return w.next(ev);
                if (o == "cread") return w.cread(ev);
                throw runtime_error("driver: op " + o);
            });
            bool more = false;
            if (r.has("err")) ev.set("err", r["err"].s);
            else { ev.set("err", ""); more = r.has("more") && r["more"].i; ev.set("out", r); }
            emit(ev);
            return more;
        };
        if (op["op"].s == "all")          // next until the end, and once more
        {
            for (int i = 0; i < 400; i++)
                if (!once(J::obj().set("op", "next"))) break;
            once(J::obj().set("op", "next"));
        }
        else once(op);
    }
}
Reg reg("contents", run);
}
