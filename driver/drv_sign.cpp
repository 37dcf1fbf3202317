// Signing documents: what is signed, what the file says is signed, what later updates keep.  Subsystem "sign".
#include "common_pdf.h"
#include <pdfmm/base/PdfSigner.h>
#include <pdfmm/base/PdfSignature.h>
#include <openssl/sha.h>
#include <fstream>
#include <unistd.h>
using namespace std;
using namespace mm;

namespace {
string sha(const string_view& s)
{
    unsigned char h[32];
    SHA256((const unsigned char*)s.data(), s.size(), h);
    return hexOf(string_view((const char*)h, 16));
}
struct Signer final : PdfSigner
{
    size_t reserved; string sig, filter, sub, type;
    string data; J calls = J::arr(), chunks = J::arr();
    void Reset() override { calls.push("reset"); data.clear(); chunks = J::arr(); }
    void AppendData(const bufferview& d) override { data.append(d.data(), d.size()); chunks.push((long long)d.size()); }
    void ComputeSignature(charbuff& b, bool dry) override
    {
        calls.push(dry ? "dry" : "compute");
        if (dry) b.resize(reserved); else b.assign(sig.data(), sig.size());
    }
    string GetSignatureFilter() const override { return filter == "" ? PdfSigner::GetSignatureFilter() : filter; }
    string GetSignatureSubFilter() const override { return sub; }
    string GetSignatureType() const override { return type; }
};
struct Run
{
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    int nfile = 0;
    vector<unsigned> fields;
    string bytes;
    PdfSignature& field(unsigned n)
    {
        for (auto f : doc->GetAcroForm() == nullptr ? doc->GetOrCreateAcroForm() : *doc->GetAcroForm())
            if (f != nullptr && f->GetObject().GetIndirectReference().ObjectNumber() == n) return dynamic_cast<PdfSignature&>(*f);
        throw out_of_range("no field");
    }
    void load(const string& pw)
    {
        files.emplace_back(new string(bytes));
        doc.reset(new PdfMemDocument());
        doc->LoadFromBuffer(*files.back(), pw);
    }
    static J text(const nullable<const PdfString&>& s) { return s.has_value() ? bytesOf(s->GetString()) : J::arr().push(-1); }
    J obs()
    {
        J r = J::obj(), fs = J::arr();
        auto form = doc->GetAcroForm();
        if (form != nullptr)
            for (auto f : *form)
            {
                auto s = dynamic_cast<PdfSignature*>(f);
                if (s == nullptr) continue;
                J q = J::obj();
                q.set("n", s->GetObject().GetIndirectReference().ObjectNumber());
                q.set("name", text(s->GetSignerName())).set("reason", text(s->GetSignatureReason())).set("location", text(s->GetSignatureLocation()));
                auto d = s->GetSignatureDate();
                q.set("date", d.has_value() ? J((long long)d->GetSecondsFromEpoch().count()) : J(-1));
                auto v = static_cast<const PdfSignature*>(s)->GetValueObject();
                auto nm = [&](const char* k) -> string { auto o = v == nullptr ? nullptr : v->GetDictionary().FindKey(k); const PdfName* x; return o != nullptr && o->TryGetName(x) ? x->GetString() : string(); };
                q.set("filter", nm("Filter")).set("sub", nm("SubFilter")).set("type", nm("Type"));
                J cr = J::arr().push(-1); long long perm = 0;
                if (v != nullptr)
                {
                    auto a = v->GetDictionary().FindKey("Prop_Build");
                    if (a != nullptr && (a = a->GetDictionary().FindKey("App")) != nullptr && (a = a->GetDictionary().FindKey("Name")) != nullptr) cr = bytesOf(a->GetString().GetString());
                    a = v->GetDictionary().FindKey("Reference");
                    if (a != nullptr && a->GetArray().size() == 1)
                    {
                        auto& t = a->GetArray().MustFindAt(0).GetDictionary();
                        auto pm = doc->GetCatalog().GetDictionary().FindKey("Perms");
                        if (t.MustFindKey("TransformMethod").GetName() == "DocMDP" && pm != nullptr && pm->GetDictionary().MustGetKey("DocMDP").IsReference())
                            perm = t.MustFindKey("TransformParams").GetDictionary().MustFindKey("P").GetNumber();
                    }
                }
                q.set("creator", cr).set("perm", perm);
                string c = "none";
                if (v != nullptr) { auto o = v->GetDictionary().FindKey("Contents"); const PdfString* x; if (o != nullptr && o->TryGetString(x)) c = sha(x->GetRawData()); }
                q.set("contents", c);
                fs.push(q);
            }
        r.set("fields", fs);
        auto a = doc->GetCatalog().GetDictionary().FindKey("Anchor");
        r.set("anchor", a == nullptr ? J(-1) : J((long long)a->GetNumber()));
        auto sf = form == nullptr ? nullptr : form->GetDictionary().FindKey("SigFlags");
        r.set("sigflags", sf == nullptr ? J(0) : J((long long)sf->GetNumber()));
        r.set("need", form != nullptr && form->GetNeedAppearances());
        return r;
    }
};
void run(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op.str("op");
        unsigned num = op.has("f") ? x.fields.at(op.num("f")) : 0;
        if (op.has("f"))
        {
            // the field went with what was not saved
            try { x.field(num); } catch (const out_of_range&) { continue; }
            // changing a signed value breaks the signature
            auto v = static_cast<const PdfSignature&>(x.field(num)).GetValueObject();
            if (o == "attr" && v != nullptr && v->GetDictionary().HasKey("ByteRange")) continue;
            ev.set("n", num);
        }
        J r = guarded([&]() -> J {
            J r = J::obj();
            auto opts = op.num("gc") ? PdfSaveOptions::None : PdfSaveOptions::NoCollectGarbage;
            if (op.num("nomod")) opts = (PdfSaveOptions)((int)opts | (int)PdfSaveOptions::NoModifyDateUpdate);
            if (o == "start")
            {
                x.doc.reset(new PdfMemDocument());
                x.doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
                if (op.num("need")) x.doc->GetOrCreateAcroForm().SetNeedAppearances(true);
                if (op.num("filler"))
                {
                    string d; unsigned s = 12345;
                    for (long long i = 0; i < op.num("filler"); i++) { s = s * 1103515245 + 12345; d += (char)('a' + (s >> 16) % 26); }
                    auto& f = x.doc->GetObjects().CreateDictionaryObject();
                    f.GetOrCreateStream().SetData(d, true);
                    x.doc->GetCatalog().GetDictionary().AddKeyIndirect("Filler", f);
                }
                if (op.str("enc") != "") x.doc->SetEncrypted("u", "o", PdfPermissions::Default, op.str("enc") == "rc4" ? PdfEncryptAlgorithm::RC4V2 : op.str("enc") == "aes2" ? PdfEncryptAlgorithm::AESV2 : PdfEncryptAlgorithm::AESV3, op.str("enc") == "aes3" ? PdfKeyLength::L256 : PdfKeyLength::L128);
                x.bytes.clear();
                { StringStreamDevice dev(x.bytes); x.doc->Save(dev); }
                x.load("u");
            }
            else if (o == "load") x.load("u");
            else if (o == "field")
            {
                PdfField* f;
                if (op.num("page")) f = &x.doc->GetPages().GetPageAt(0).CreateField(op.str("name"), PdfFieldType::Signature, PdfRect(1, 2, 3, 4));
                else f = &x.doc->GetOrCreateAcroForm().CreateField(op.str("name"), PdfFieldType::Signature);
                r.set("n", f->GetObject().GetIndirectReference().ObjectNumber());
                x.fields.push_back(f->GetObject().GetIndirectReference().ObjectNumber());
            }
            else if (o == "edit") x.doc->GetCatalog().GetDictionary().AddKey("Anchor", PdfObject((int64_t)op.num("v")));
            else if (o == "attr")
            {
                auto& f = x.field(num);
                if (op.num("ensure")) f.EnsureValueObject();
                string k = op.str("k");
                bool none = op["v"].a.size() == 1 && op["v"].a[0].i == -1;
                PdfString s(none ? string() : bytesTo(op["v"]));
                nullable<const PdfString&> v; if (!none) v = s;
                if (k == "name") f.SetSignerName(v);
                else if (k == "reason") f.SetSignatureReason(v);
                else if (k == "location") f.SetSignatureLocation(v);
                else if (k == "creator") f.SetSignatureCreator(v);
                else if (k == "date") { PdfDate d(chrono::seconds(op.num("s")), { }); nullable<const PdfDate&> nd; if (!none) nd = d; f.SetSignatureDate(nd); }
                else if (k == "cert") f.AddCertificationReference((PdfCertPermission)op.num("perm"));
            }
            else if (o == "update")
            {
                string b = x.bytes;
                { StringStreamDevice dev(b); x.doc->SaveUpdate(dev, opts); }
                x.bytes = b;
            }
            else if (o == "sign")
            {
                Signer s;
                s.reserved = (size_t)op.num("reserved"); s.sig = string((size_t)op.num("actual"), '\0');
                for (size_t i = 0; i < s.sig.size(); i++) s.sig[i] = (char)(1 + (i * 7 + op.num("seed")) % 255);
                s.filter = op.str("filter"); s.sub = op.str("sub"); s.type = op.str("type");
                string pad = s.sig; pad.resize(max(s.sig.size(), s.reserved));
                r.set("sig", sha(pad)).set("before", sha(x.bytes)).set("blen", (long long)x.bytes.size());
                auto& f = x.field(num);
                string dev = op.str("dev"), path = tmpDir() + "/s" + to_string(getpid()) + "_" + to_string(x.nfile++) + ".pdf", out = x.bytes;
                struct Out { const string& path; string& out; bool f; ~Out() { if (f) { ifstream i(path, ios::binary); out.assign(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); remove(path.c_str()); } } };
                string err;
                if (dev == "file" || dev == "iostream")
                {
                    { ofstream w(path, ios::binary); w.write(out.data(), out.size()); }
                    Out keep { path, out, true };
                    try
                    {
                        if (dev == "file") { FileStreamDevice d(path, FileMode::Open); SignDocument(*x.doc, d, s, f, opts); }
                        else { fstream fs(path, ios::in | ios::out | ios::binary); StandardStreamDevice d(static_cast<iostream&>(fs)); SignDocument(*x.doc, d, s, f, opts); }
                    }
                    catch (const PdfError& e) { err = "pdf"; } catch (const exception& e) { err = e.what(); }
                }
                else if (dev == "buffer")
                {
                    charbuff b; b.assign(out.data(), out.size());
                    try { BufferStreamDevice d(b); SignDocument(*x.doc, d, s, f, opts); }
                    catch (const PdfError& e) { err = "pdf"; } catch (const exception& e) { err = e.what(); }
                    out.assign(b.data(), b.size());
                }
                else
                {
                    try { StringStreamDevice d(out, DeviceAccess::ReadWrite, op.num("ate") != 0); SignDocument(*x.doc, d, s, f, opts); }
                    catch (const PdfError& e) { err = "pdf"; } catch (const exception& e) { err = e.what(); }
                }
                r.set("serr", err);
                r.set("calls", s.calls).set("chunks", s.chunks).set("digest", sha(s.data));
                if (err == "") x.bytes = out;
            }
            else throw runtime_error("driver: op " + o);
            if (o == "start" || o == "update" || o == "sign") r.set("hex", hexOf(x.bytes));
            if (o == "start" || o == "load") r.set("obs", x.obs());
            return r;
        });
        if (!r.has("err")) r.set("err", "");
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("sign", run);
}
