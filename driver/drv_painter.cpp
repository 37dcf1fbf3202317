// Painting: calls of the painter, what the canvases hold then.  Subsystem "painter".
#include "common_pdf.h"
#include <pdfmm/base/PdfPainter.h>
#include <pdfmm/base/PdfExtGState.h>
#include <pdfmm/base/PdfXObjectForm.h>
#include <cmath>
using namespace std;
using namespace mm;

namespace {
long long milli(double d) { return (long long)llround(d * 1000); }
struct Run
{
    unique_ptr<PdfMemDocument> doc;
    vector<unique_ptr<PdfXObjectForm>> forms;
    vector<unique_ptr<PdfExtGState>> gs;
    vector<PdfFont*> fonts;
    unique_ptr<PdfPainter> painter;
    J res = J::arr();

    PdfCanvas& canvas(long long c)
    {
        if (c < 2) return doc->GetPages().GetPageAt((unsigned)c);
        return *forms[(size_t)c - 2];
    }
    static PdfColor color(const J& c)
    {
        string sp = c.str("sp");
        auto n = [&](size_t i) { return c["n"].a[i].i / 1000.0; };
        if (sp == "gray") return PdfColor(n(0));
        if (sp == "rgb") return PdfColor(n(0), n(1), n(2));
        if (sp == "cmyk") return PdfColor(n(0), n(1), n(2), n(3));
        if (sp == "lab") return PdfColor::CreateCieLab(n(0), n(1), n(2));
        return PdfColor::CreateSeparation(sp.substr(4), n(0), PdfColor(1.0, 0.0, 0.5, 0.0));
    }
    static J colorOf(const PdfColor& c)
    {
        J n = J::arr(); string sp;
        switch (c.GetColorSpace())
        {
            case PdfColorSpace::DeviceGray: sp = "gray"; n.push(milli(c.GetGrayScale())); break;
            case PdfColorSpace::DeviceRGB: sp = "rgb"; n.push(milli(c.GetRed())).push(milli(c.GetGreen())).push(milli(c.GetBlue())); break;
            case PdfColorSpace::DeviceCMYK: sp = "cmyk"; n.push(milli(c.GetCyan())).push(milli(c.GetMagenta())).push(milli(c.GetYellow())).push(milli(c.GetBlack())); break;
            default: sp = "other";
        }
        return J::obj().set("sp", sp).set("n", n);
    }
    void call(const J& op, J& r)
    {
        auto& p = *painter;
        auto& g = p.GetGraphicsState();
        auto& t = p.GetTextState();
        string k = op.str("k"), s = op.str("s"), b = op.has("b") ? bytesTo(op["b"]) : string();
        vector<double> n;
        for (auto& v : op["n"].a) n.push_back(v.i / 1000.0);
        auto raw = [&](size_t i) { return op["n"].a[i].i; };
        if (k == "w") g.SetLineWidth(n[0]);
        else if (k == "M") g.SetMiterLevel(n[0]);
        else if (k == "J") g.SetLineCapStyle((PdfLineCapStyle)raw(0));
        else if (k == "j") g.SetLineJoinStyle((PdfLineJoinStyle)raw(0));
        else if (k == "ri") g.SetRenderingIntent(s);
        else if (k == "cm") g.SetCurrentMatrix(Matrix::FromCoefficients(n[0], n[1], n[2], n[3], n[4], n[5]));
        else if (k == "fill") g.SetFillColor(color(op["color"]));
        else if (k == "stroke") g.SetStrokeColor(color(op["color"]));
        else if (k == "pattern") p.SetTilingPattern(s);
        else if (k == "spattern") p.SetStrokingTilingPattern(s);
        else if (k == "gs") p.SetExtGState(*gs[(size_t)op.num("r") - 2]);
        else if (k == "style") p.SetStrokeStyle((PdfStrokeStyle)op.num("style"), { }, op.num("inv") != 0);
        else if (k == "dash") p.SetStrokeStyle(PdfStrokeStyle::Custom, s);
        else if (k == "Tf") t.SetFont(*fonts[(size_t)op.num("r")], n[0]);
        else if (k == "Tz") t.SetFontScale(n[0] / 100);
        else if (k == "Tc") t.SetCharSpacing(n[0]);
        else if (k == "Tw") t.SetWordSpacing(n[0]);
        else if (k == "Tr") t.SetRenderingMode((PdfTextRenderingMode)(raw(0) + 1));
        else if (k == "tab") p.SetTabWidth((unsigned short)raw(0));
        else if (k == "cliprect") p.SetClipRect(n[0], n[1], n[2], n[3]);
        else if (k == "line") p.DrawLine(n[0], n[1], n[2], n[3]);
        else if (k == "re") p.Rectangle(n[0], n[1], n[2], n[3]);
        else if (k == "rounded") p.Rectangle(n[0], n[1], n[2], n[3], n[4], n[5]);
        else if (k == "ellipse") p.Ellipse(n[0], n[1], n[2], n[3]);
        else if (k == "circle") p.Circle(n[0], n[1], n[2]);
        else if (k == "m") p.MoveTo(n[0], n[1]);
        else if (k == "l") p.LineTo(n[0], n[1]);
        else if (k == "c") p.CubicBezierTo(n[0], n[1], n[2], n[3], n[4], n[5]);
        else if (k == "H") p.HorizontalLineTo(n[0]);
        else if (k == "V") p.VerticalLineTo(n[0]);
        else if (k == "smooth") p.SmoothCurveTo(n[0], n[1], n[2], n[3]);
        else if (k == "quad") p.QuadCurveTo(n[0], n[1], n[2], n[3]);
        else if (k == "squad") p.SmoothQuadCurveTo(n[0], n[1]);
        else if (k == "h") { if (op.num("eo")) p.Close(); else p.ClosePath(); }
        else if (k == "S") p.Stroke();
        else if (k == "f") p.Fill(op.num("eo") != 0);
        else if (k == "B") p.FillAndStroke(op.num("eo") != 0);
        else if (k == "clip") p.Clip(op.num("eo") != 0);
        else if (k == "n") p.EndPath();
        else if (k == "q") p.Save();
        else if (k == "Q") p.Restore();
        else if (k == "text") p.DrawText(b, n[0], n[1]);
        else if (k == "aligned" || k == "multi")
        {
            string e; for (char ch : b) if (ch == '\t') e.append(p.GetTabWidth(), ' '); else e.push_back(ch);
            if (t.GetFont() != nullptr) r.set("len", milli(t.GetFont()->GetStringLength(e, t)));
            if (k == "aligned") p.DrawTextAligned(b, n[0], n[1], n[2], (PdfHorizontalAlignment)op.num("al"));
            else p.DrawMultiLineText(b, n[0], n[1], n[2], n[3], (PdfHorizontalAlignment)op.num("al"), (PdfVerticalAlignment)op.num("val"), op.num("clip") != 0);
        }
        else if (k == "BT") p.BeginText(n[0], n[1]);
        else if (k == "Td") p.MoveTextPos(n[0], n[1]);
        else if (k == "Tj") p.AddText(b);
        else if (k == "ET") p.EndText();
        else if (k == "do") p.DrawXObject(*forms[(size_t)op.num("r") - 4], n[0], n[1], n[2], n[3]);
        else if (k == "BMC") p.BeginMarkedContext(s);
        else if (k == "EMC") p.EndMarkedContext();
        else throw runtime_error("driver: call " + k);
    }
};

void run(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        string o = op.str("op");
        J out = guarded([&] {
            J r = J::obj();
            if (o == "doc")
            {
                x.doc.reset(new PdfMemDocument());
                for (int i = 0; i < 2; i++) x.doc->GetPages().CreatePage(PdfRect(0, 0, 600, 800));
                PdfFontCreateParams fp; fp.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding();
                x.fonts.push_back(x.doc->GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica, fp));
                x.fonts.push_back(x.doc->GetFonts().GetStandard14Font(PdfStandard14FontType::Courier, fp));
                for (auto f : x.fonts) x.res.push(f->GetObject().GetIndirectReference().ObjectNumber());
                for (int i = 0; i < 2; i++)
                {
                    x.gs.emplace_back(new PdfExtGState(*x.doc));
                    x.res.push(x.gs.back()->GetObject().GetIndirectReference().ObjectNumber());
                }
                for (auto& f : op["forms"].a)
                {
                    x.forms.push_back(x.doc->CreateXObjectForm(PdfRect(0, 0, 100, 100), f.s));
                    x.res.push(x.forms.back()->GetObject().GetIndirectReference().ObjectNumber());
                }
                r.set("res", x.res);
            }
            else if (o == "raw")
            {
                string b = bytesTo(op["bytes"]);
                if (op.num("c") < 2)
                    x.doc->GetPages().GetPageAt((unsigned)op.num("c")).GetOrCreateContents().GetStreamForAppending(PdfStreamAppendFlags::NoSaveRestorePrior).SetData(b);
                else
                    x.forms[(size_t)op.num("c") - 2]->GetObject().GetOrCreateStream().SetData(b);
            }
            else if (o == "painter") x.painter.reset(new PdfPainter((PdfPainterFlags)op.num("flags")));
            else if (o == "canvas") x.painter->SetCanvas(x.canvas(op.num("c")));
            else if (o == "finish") x.painter->FinishDrawing();
            else if (o == "call") x.call(op, r);
            else if (o == "state")
            {
                auto& g = x.painter->GetGraphicsState();
                auto& t = x.painter->GetTextState();
                r.set("lw", milli(g.GetLineWidth())).set("ml", milli(g.GetMiterLevel())).set("cap", (int)g.GetLineCapStyle()).set("join", (int)g.GetLineJoinStyle());
                r.set("ri", g.GetRenderingIntent()).set("fill", Run::colorOf(g.GetFillColor())).set("stroke", Run::colorOf(g.GetStrokeColor()));
                r.set("font", t.GetFont() == nullptr ? 0 : (long long)t.GetFont()->GetObject().GetIndirectReference().ObjectNumber()).set("size", milli(t.GetFontSize()));
                r.set("fscale", milli(t.GetFontScale() * 100)).set("cs", milli(t.GetCharSpacing())).set("ws", milli(t.GetWordSpacing())).set("rm", (int)t.GetRenderingMode() - 1);
            }
            else if (o == "show")
            {
                J copies = J::arr(), objs = J::arr();
                for (int i = 0; i < 4; i++)
                {
                    string b;
                    if (i < 2)
                    {
                        auto& page = x.doc->GetPages().GetPageAt(i);
                        objs.push(page.GetObject().GetIndirectReference().ObjectNumber());
                        if (page.GetContents() != nullptr) { auto cb = page.GetContents()->GetCopy(); b.assign(cb.data(), cb.size()); }
                    }
                    else
                    {
                        auto& f = *x.forms[i - 2];
                        objs.push(f.GetObject().GetIndirectReference().ObjectNumber());
                        if (f.GetObject().HasStream()) { charbuff cb; f.GetObject().GetStream()->CopyTo(cb); b.assign(cb.data(), cb.size()); }
                    }
                    copies.push(hexOf(b));
                }
                string file;
                { StringStreamDevice dev(file); x.doc->Save(dev, PdfSaveOptions::NoCollectGarbage); }
                r.set("copies", copies).set("objs", objs).set("bytes", hexOf(file));
            }
            else throw runtime_error("driver: op " + o);
            r.set("err", "");
            return r;
        });
        J ev = op;
        ev.set("out", out);
        emit(ev);
        if (out.str("err") != "" && o != "call") return;
    }
}
Reg reg("painter", run);
}
