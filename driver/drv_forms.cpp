// Interactive forms: fields, their tree, their widgets.  Subsystem "forms".
#include "common_pdf.h"
#include <algorithm>
#include <set>
using namespace std;
using namespace mm;

namespace {
string utf8(const J& cps)
{
    string r;
    for (auto& c : cps.a)
    {
        unsigned x = (unsigned)c.i;
        if (x < 0x80) r += (char)x;
        else if (x < 0x800) { r += (char)(0xC0 | x >> 6); r += (char)(0x80 | (x & 63)); }
        else if (x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
        else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
    }
    return r;
}
J cps(const string& s)
{
    J r = J::arr();
    for (size_t i = 0; i < s.size();)
    {
        unsigned c = (unsigned char)s[i], n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        unsigned x = n == 1 ? c : c & (0xFF >> (n + 1));
        for (unsigned k = 1; k < n; k++) x = x << 6 | ((i + k < s.size() ? (unsigned char)s[i + k] : 0) & 63);
        r.push((long long)x);
        i += n;
    }
    return r;
}
J none() { return J::arr().push(-1); }
bool isNone(const J& v) { return v.a.size() == 1 && v.a[0].i == -1; }
J text(const nullable<const PdfString&>& s) { return s.has_value() ? cps(s->GetString()) : none(); }
const pair<const char*, PdfFieldType> types[] = { { "PushButton", PdfFieldType::PushButton }, { "CheckBox", PdfFieldType::CheckBox }, { "RadioButton", PdfFieldType::RadioButton },
    { "TextBox", PdfFieldType::TextBox }, { "ComboBox", PdfFieldType::ComboBox }, { "ListBox", PdfFieldType::ListBox }, { "Signature", PdfFieldType::Signature } };
string typeName(PdfFieldType t)
{
    for (auto& p : types) if (p.second == t) return p.first;
    return "Unknown";
}
PdfFieldType typeOf(const string& s)
{
    for (auto& p : types) if (s == p.first) return p.second;
    throw runtime_error("driver: type");
}
const pair<const char*, PdfHighlightingMode> modes[] = { { "N", PdfHighlightingMode::None }, { "I", PdfHighlightingMode::Invert }, { "O", PdfHighlightingMode::InvertOutline },
    { "P", PdfHighlightingMode::Push } };
unsigned num(const PdfField& f) { return f.GetObject().GetIndirectReference().ObjectNumber(); }

struct Run
{
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    void flatten(PdfField& f, vector<PdfField*>& r)
    {
        r.push_back(&f);
        auto& kids = f.GetChildren();
        for (auto k : kids) flatten(*k, r);
    }
    vector<PdfField*> tree()
    {
        vector<PdfField*> r;
        auto form = doc->GetAcroForm();
        if (form == nullptr) return r;
        for (auto f : *form) if (f != nullptr) flatten(*f, r);
        return r;
    }
    vector<PdfField*> widgets(unsigned page)
    {
        vector<PdfField*> r;
        for (auto a : doc->GetPages().GetPageAt(page).GetAnnotations())
            r.push_back(&static_cast<PdfAnnotationWidget*>(a)->GetField());
        return r;
    }
    J kidsOf(PdfField& f, bool wid)
    {
        J r = J::arr();
        if (!wid)
        {
            unsigned i = 0;
            for (auto k : f.GetChildren())
            {
                if (&f.GetChildren().GetFieldAt(i) != k || &f.GetChildren().GetField(k->GetObject().GetIndirectReference()) != k)
                    throw runtime_error("children differ");
                r.push(num(*k));
                i++;
            }
            if (i != f.GetChildren().GetCount()) throw runtime_error("number of children differs");
            return r;
        }
        auto o = f.GetDictionary().FindKey("Kids");
        if (o != nullptr)
            for (auto& x : o->GetArray()) r.push(x.GetReference().ObjectNumber());
        return r;
    }
    J seen(PdfField& f, bool wid)
    {
        J r = J::obj();
        r.set("n", num(f)).set("type", typeName(f.GetType())).set("name", text(f.GetName())).set("raw", text(f.GetNameRaw()));
        r.set("full", cps(f.GetFullName())).set("esc", cps(f.GetFullName(true))).set("alt", text(f.GetAlternateName())).set("map", text(f.GetMappingName()));
        auto ff = f.GetDictionary().FindKeyParent("Ff");
        J bits = J::arr();
        if (ff != nullptr)
            for (int i = 0; i < 32; i++) if (ff->GetNumber() >> i & 1) bits.push(i + 1);
        r.set("bits", bits);
        J on = J::arr();
        auto flag = [&](const char* n, bool b) { if (b) on.push(n); };
        flag("ReadOnly", f.IsReadOnly()); flag("Required", f.IsRequired()); flag("NoExport", f.IsNoExport());
        J tx = none(), items = J::arr(); long long maxlen = -1, sel = -1; bool checked = false;
        bool terminal = !f.GetDictionary().HasKey("Kids");
        switch (f.GetType())
        {
            case PdfFieldType::TextBox:
            {
                auto& t = dynamic_cast<PdfTextBox&>(f);
                flag("MultiLine", t.IsMultiLine()); flag("Password", t.IsPasswordField()); flag("File", t.IsFileField()); flag("Spell", t.IsSpellcheckingEnabled());
                flag("Scroll", t.IsScrollBarsEnabled()); flag("Comb", t.IsCombs()); flag("Rich", t.IsRichText());
                maxlen = t.GetMaxLen();
                if (terminal) tx = text(t.GetText());
                break;
            }
            case PdfFieldType::ComboBox:
            case PdfFieldType::ListBox:
            {
                auto& t = dynamic_cast<PdChoiceField&>(f);
                flag("Spell", t.IsSpellcheckingEnabled()); flag("Sorted", t.IsSorted()); flag("Multi", t.IsMultiSelect()); flag("Commit", t.IsCommitOnSelectionChange());
                if (f.GetType() == PdfFieldType::ComboBox) flag("Edit", dynamic_cast<PdfComboBox&>(f).IsEditable());
                if (t.IsComboBox() != (f.GetType() == PdfFieldType::ComboBox)) throw runtime_error("combo box differs");
                for (unsigned i = 0; i < t.GetItemCount(); i++)
                    items.push(J::arr().push(cps(t.GetItem(i).GetString())).push(text(t.GetItemDisplayText((int)i))));
                if (terminal) sel = t.GetSelectedIndex();
                break;
            }
            case PdfFieldType::CheckBox:
            case PdfFieldType::RadioButton:
            case PdfFieldType::PushButton:
            {
                auto& t = dynamic_cast<PdfButton&>(f);
                if (t.IsPushButton() != (f.GetType() == PdfFieldType::PushButton) || t.IsRadioButton() != (f.GetType() == PdfFieldType::RadioButton)
                    || t.IsCheckBox() != (f.GetType() == PdfFieldType::CheckBox)) throw runtime_error("kind of button differs");
                if (f.GetType() == PdfFieldType::CheckBox) checked = dynamic_cast<PdfCheckBox&>(f).IsChecked();
                break;
            }
            default: break;
        }
        r.set("on", on).set("text", tx).set("maxlen", maxlen).set("items", items).set("sel", sel).set("checked", checked);
        string h;
        for (auto& m : modes) if (f.GetHighlightingMode() == m.second) h = m.first;
        r.set("h", h);
        J aa = J::arr();
        auto ao = f.GetDictionary().FindKey("AA");
        if (ao != nullptr)
            for (auto& p : ao->GetDictionary()) aa.push(J::arr().push(p.first.GetString()).push((long long)p.second.GetReference().ObjectNumber()));
        r.set("aa", aa);
        J ca = none(), rc = none(), ac = none();
        if (f.GetType() == PdfFieldType::PushButton && f.GetWidget() != nullptr)
        {
            auto& t = dynamic_cast<PdfPushButton&>(f);
            ca = text(t.GetCaption()); rc = text(t.GetRolloverCaption()); ac = text(t.GetAlternateCaption());
        }
        else
        {
            auto mk = f.GetDictionary().FindKey("MK");
            auto get = [&](const char* k) { auto o = mk == nullptr ? nullptr : mk->GetDictionary().FindKey(k); return o == nullptr ? none() : cps(o->GetString().GetString()); };
            ca = get("CA"); rc = get("RC"); ac = get("AC");
        }
        r.set("ca", ca).set("rc", rc).set("ac", ac);
        auto par = f.GetParentSafe();
        r.set("parent", par == nullptr ? 0u : num(*par));
        r.set("kids", kidsOf(f, wid));
        return r;
    }
    J obs()
    {
        J r = J::obj();
        J roots = J::arr(), fields = J::arr(), ws = J::arr();
        auto form = doc->GetAcroForm();
        bool need = false, sig = false;
        if (form != nullptr)
        {
            unsigned i = 0;
            for (auto f : *form)
            {
                if (f == nullptr) { roots.push(0); i++; continue; }
                if (&form->GetFieldAt(i) != f || &form->GetField(f->GetObject().GetIndirectReference()) != f) throw runtime_error("fields differ");
                roots.push(num(*f));
                i++;
            }
            if (form->GetFieldCount() != i) throw runtime_error("number of fields differs");
            for (auto f : tree()) fields.push(seen(*f, false));
            need = form->GetNeedAppearances();
            sig = form->GetDictionary().FindKeyAs<int64_t>("SigFlags", 0) == 3;
        }
        for (unsigned p = 0; p < 2; p++)
        {
            J w = J::arr();
            for (auto f : widgets(p)) w.push(seen(*f, true));
            ws.push(w);
        }
        return r.set("roots", roots).set("fields", fields).set("widgets", ws).set("need", need).set("sig", sig);
    }
    void start()
    {
        doc.reset(new PdfMemDocument());
        for (int i = 0; i < 2; i++) doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    }
    // a form some other program wrote
    void build(const J& op, J& r)
    {
        start();
        J ids = J::arr();
        auto& form = doc->GetObjects().CreateDictionaryObject();
        doc->GetCatalog().GetDictionary().AddKey("AcroForm", form.GetIndirectReference());
        vector<PdfObject*> objs;
        for (auto& n : op["nodes"].a)
        {
            auto& o = doc->GetObjects().CreateDictionaryObject();
            objs.push_back(&o);
            ids.push((long long)o.GetIndirectReference().ObjectNumber());
            auto& d = o.GetDictionary();
            if (n.num("p") > 0)
            {
                auto par = objs[n.num("p") - 1];
                d.AddKey("Parent", par->GetIndirectReference());
                if (!par->GetDictionary().HasKey("Kids")) par->GetDictionary().AddKey("Kids", PdfArray());
                par->GetDictionary().FindKey("Kids")->GetArray().Add(o.GetIndirectReference());
            }
            if (!n.str("ft").empty()) d.AddKey("FT", PdfName(n.str("ft")));
            if (n.num("hasff"))
            {
                int64_t ff = 0;
                for (auto& b : n["ff"].a) ff |= (int64_t)1 << (b.i - 1);
                PdfObject x(ff);
                if (n.num("indirect")) d.AddKeyIndirect("Ff", doc->GetObjects().CreateObject(PdfVariant(ff))); else d.AddKey("Ff", x);
            }
            auto str = [&](const char* k, const char* key) { if (!isNone(n[k])) d.AddKey(key, PdfString(utf8(n[k]))); };
            str("t", "T"); str("tu", "TU"); str("tm", "TM"); str("v", "V"); str("rv", "RV");
            if (n.num("maxlen") >= 0) d.AddKey("MaxLen", (int64_t)n.num("maxlen"));
            if (n.num("hasopt"))
            {
                PdfArray a;
                for (auto& x : n["opt"].a)
                {
                    PdfObject it;
                    if (isNone(x.a[1])) it = PdfObject(PdfString(utf8(x.a[0])));
                    else { PdfArray y; y.Add(PdfString(utf8(x.a[0]))); y.Add(PdfString(utf8(x.a[1]))); it = PdfObject(y); }
                    if (n.num("indirect")) a.Add(doc->GetObjects().CreateObject(it.GetVariant()).GetIndirectReference()); else a.Add(it);
                }
                if (n.num("indirect")) d.AddKey("Opt", doc->GetObjects().CreateObject(PdfVariant(a)).GetIndirectReference()); else d.AddKey("Opt", a);
            }
            if (n.num("page") > 0)
            {
                d.AddKey("Type", PdfName("Annot")); d.AddKey("Subtype", PdfName("Widget"));
                PdfArray rc; PdfRect(1, 2, 3, 4).ToArray(rc);
                d.AddKey("Rect", rc);
                auto& pd = doc->GetPages().GetPageAt((unsigned)n.num("page") - 1).GetDictionary();
                if (!pd.HasKey("Annots")) pd.AddKey("Annots", PdfArray());
                pd.FindKey("Annots")->GetArray().Add(o.GetIndirectReference());
            }
        }
        PdfArray fields;
        for (auto& x : op["roots"].a)
        {
            if (x.i == 0) { fields.Add(op.num("bad") == 1 ? PdfObject(PdfReference(9999, 0)) : op.num("bad") == 2 ? PdfObject((int64_t)7) : PdfObject(PdfString("x"))); }
            else fields.Add(objs[x.i - 1]->GetIndirectReference());
        }
        if (op.num("indarr")) form.GetDictionary().AddKey("Fields", doc->GetObjects().CreateObject(PdfVariant(fields)).GetIndirectReference());
        else form.GetDictionary().AddKey("Fields", fields);
        r.set("ids", ids);
        reload(false);
    }
    void reload(bool update)
    {
        files.emplace_back(new string(update && !files.empty() ? *files.back() : string()));
        bool up = update && files.size() > 1;
        StringStreamDevice dev(*files.back());
        if (up) doc->SaveUpdate(dev); else doc->Save(dev);
        unique_ptr<PdfMemDocument> d(new PdfMemDocument());
        d->LoadFromBuffer(*files.back());
        doc = move(d);
    }
    PdfField* pick(const J& op, function<bool(PdfField&)> ok)
    {
        vector<PdfField*> v;
        if (op.num("via")) { v = widgets(0); auto w = widgets(1); v.insert(v.end(), w.begin(), w.end()); }
        else v = tree();
        v.erase(remove_if(v.begin(), v.end(), [&](PdfField* f) { return !ok(*f); }), v.end());
        return v.empty() ? nullptr : v[op.num("k") % v.size()];
    }
    void setFlag(PdfField& f, const string& n, bool b)
    {
        if (n == "ReadOnly") f.SetReadOnly(b);
        else if (n == "Required") f.SetRequired(b);
        else if (n == "NoExport") f.SetNoExport(b);
        else if (f.GetType() == PdfFieldType::TextBox)
        {
            auto& t = dynamic_cast<PdfTextBox&>(f);
            if (n == "MultiLine") t.SetMultiLine(b);
            else if (n == "Password") t.SetPasswordField(b);
            else if (n == "File") t.SetFileField(b);
            else if (n == "Spell") t.SetSpellcheckingEnabled(b);
            else if (n == "Scroll") t.SetScrollBarsEnabled(b);
            else if (n == "Comb") t.SetCombs(b);
            else if (n == "Rich") t.SetRichText(b);
            else throw runtime_error("driver: flag");
        }
        else
        {
            auto& t = dynamic_cast<PdChoiceField&>(f);
            if (n == "Spell") t.SetSpellcheckingEnabled(b);
            else if (n == "Sorted") t.SetSorted(b);
            else if (n == "Multi") t.SetMultiSelect(b);
            else if (n == "Commit") t.SetCommitOnSelectionChange(b);
            else if (n == "Edit") dynamic_cast<PdfComboBox&>(t).SetEditable(b);
            else throw runtime_error("driver: flag");
        }
    }
    static bool hasFlag(PdfField& f, const string& n)
    {
        if (n == "ReadOnly" || n == "Required" || n == "NoExport") return true;
        switch (f.GetType())
        {
            case PdfFieldType::TextBox: return n == "MultiLine" || n == "Password" || n == "File" || n == "Spell" || n == "Scroll" || n == "Comb" || n == "Rich";
            case PdfFieldType::ComboBox: return n == "Spell" || n == "Sorted" || n == "Multi" || n == "Commit" || n == "Edit";
            case PdfFieldType::ListBox: return n == "Spell" || n == "Sorted" || n == "Multi" || n == "Commit";
            default: return false;
        }
    }
    void act(PdfField& f, const string& key, const PdfAction& a)
    {
        if (key == "E") f.SetMouseEnterAction(a);
        else if (key == "X") f.SetMouseLeaveAction(a);
        else if (key == "D") f.SetMouseDownAction(a);
        else if (key == "U") f.SetMouseUpAction(a);
        else if (key == "Fo") f.SetFocusEnterAction(a);
        else if (key == "Bl") f.SetFocusLeaveAction(a);
        else if (key == "PO") f.SetPageOpenAction(a);
        else if (key == "PC") f.SetPageCloseAction(a);
        else if (key == "PV") f.SetPageVisibleAction(a);
        else if (key == "PI") f.SetPageInvisibleAction(a);
        else if (key == "K") f.SetKeystrokeAction(a);
        else if (key == "V") f.SetValidateAction(a);
        else throw runtime_error("driver: action");
    }
    // performs the operation; fills in n, ids
    void step(const J& op, J& r)
    {
        string o = op.str("op");
        auto any = [](PdfField&) { return true; };
        auto with = [](PdfFieldType t) { return [t](PdfField& f) { return f.GetType() == t; }; };
        auto choice = [](PdfField& f) { return f.GetType() == PdfFieldType::ComboBox || f.GetType() == PdfFieldType::ListBox; };
        r.set("n", 0).set("ids", J::arr());
        auto on = [&](function<bool(PdfField&)> ok, function<void(PdfField&)> f) {
            auto x = pick(op, ok);
            if (x == nullptr) { r.set("skip", 1); return; }
            r.set("n", num(*x));
            f(*x);
        };
        auto str = [&](const string& k) { nullable<PdfString> s; if (!isNone(op[k])) s = PdfString(utf8(op[k])); return s; };
        auto ref = [](nullable<PdfString>& s) { nullable<const PdfString&> v; if (s.has_value()) return nullable<const PdfString&>(*s); return v; };
        if (o == "start") start();
        else if (o == "build") build(op, r);
        else if (o == "form")
        {
            auto& f = doc->GetOrCreateAcroForm().CreateField(utf8(op["name"]), typeOf(op.str("type")));
            r.set("ids", J::arr().push(num(f)));
        }
        else if (o == "page")
        {
            set<unsigned> before;
            auto fobj = doc->GetCatalog().GetDictionary().FindKey("AcroForm");
            auto farr = fobj == nullptr ? nullptr : fobj->GetDictionary().FindKey("Fields");
            if (farr != nullptr)
                for (auto& x : farr->GetArray()) if (x.IsReference()) before.insert(x.GetReference().ObjectNumber());
            auto& f = doc->GetPages().GetPageAt(op.num("page")).CreateField(utf8(op["name"]), typeOf(op.str("type")), PdfRect(1, 2, 3, 4));
            J ids = J::arr().push(num(f));
            // the parent of both widgets, if one was created
            for (auto x : *doc->GetAcroForm())
                if (x != nullptr && num(*x) != num(f) && before.count(num(*x)) == 0) ids.push(num(*x));
            r.set("ids", ids);
        }
        else if (o == "child")
            on([](PdfField& f) { return f.GetWidget() == nullptr && f.GetType() != PdfFieldType::Unknown; }, [&](PdfField& f) { r.set("ids", J::arr().push(num(f.GetChildren().CreateChild()))); });
        else if (o == "childw")
            on([](PdfField& f) { return f.GetWidget() == nullptr && f.GetType() != PdfFieldType::Unknown; }, [&](PdfField& f) {
                r.set("ids", J::arr().push(num(f.GetChildren().CreateChild(doc->GetPages().GetPageAt(op.num("page")), PdfRect(5, 6, 7, 8))))); });
        else if (o == "flag") on([&](PdfField& f) { return hasFlag(f, op.str("f")); }, [&](PdfField& f) { setFlag(f, op.str("f"), op.num("b") != 0); });
        else if (o == "name") on(any, [&](PdfField& f) { auto s = str("v"); f.SetName(ref(s)); });
        else if (o == "rawname") on(any, [&](PdfField& f) { f.GetDictionary().AddKey("T", PdfString(utf8(op["v"]))); });
        else if (o == "alt") on(any, [&](PdfField& f) { auto s = str("v"); f.SetAlternateName(ref(s)); });
        else if (o == "map") on(any, [&](PdfField& f) { auto s = str("v"); f.SetMappingName(ref(s)); });
        else if (o == "text") on(with(PdfFieldType::TextBox), [&](PdfField& f) { auto s = str("v"); dynamic_cast<PdfTextBox&>(f).SetText(ref(s)); });
        else if (o == "maxlen") on(with(PdfFieldType::TextBox), [&](PdfField& f) { dynamic_cast<PdfTextBox&>(f).SetMaxLen(op.num("v")); });
        else if (o == "insert") on(choice, [&](PdfField& f) { auto s = str("disp"); dynamic_cast<PdChoiceField&>(f).InsertItem(PdfString(utf8(op["v"])), ref(s)); });
        else if (o == "remove") on(choice, [&](PdfField& f) { dynamic_cast<PdChoiceField&>(f).RemoveItem(op.num("i")); });
        else if (o == "select") on(choice, [&](PdfField& f) { dynamic_cast<PdChoiceField&>(f).SetSelectedIndex((int)op.num("i")); });
        else if (o == "check") on(with(PdfFieldType::CheckBox), [&](PdfField& f) { dynamic_cast<PdfCheckBox&>(f).SetChecked(op.num("b") != 0); });
        else if (o == "mode") on(any, [&](PdfField& f) { for (auto& m : modes) if (op.str("v") == m.first) f.SetHighlightingMode(m.second); });
        else if (o == "action") on(any, [&](PdfField& f) {
                PdfAction a(*doc, PdfActionType::JavaScript);
                a.SetScript(PdfString("x"));
                act(f, op.str("key"), a);
                r.set("ids", J::arr().push((long long)a.GetObject().GetIndirectReference().ObjectNumber()));
            });
        else if (o == "caption") on(with(PdfFieldType::PushButton), [&](PdfField& f) {
                auto s = str("v");
                auto& b = dynamic_cast<PdfPushButton&>(f);
                r.set("bound", b.GetWidget() != nullptr);
                if (op.str("key") == "CA") b.SetCaption(ref(s));
                else if (op.str("key") == "RC") b.SetRolloverCaption(ref(s));
                else b.SetAlternateCaption(ref(s));
            });
        else if (o == "removeat") doc->GetOrCreateAcroForm().RemoveFieldAt((unsigned)op.num("i"));
        else if (o == "removeref") on(any, [&](PdfField& f) { PdfReference x = f.GetObject().GetIndirectReference(); doc->GetOrCreateAcroForm().RemoveField(x); });
        else if (o == "removekid") on([](PdfField& f) { return f.GetWidget() == nullptr && f.GetChildren().GetCount() > 0; }, [&](PdfField& f) {
                unsigned i = op.num("i") % f.GetChildren().GetCount();
                r.set("i", i);
                if (op.num("byref")) { PdfReference x = f.GetChildren().GetFieldAt(i).GetObject().GetIndirectReference(); f.GetChildren().RemoveField(x); }
                else f.GetChildren().RemoveFieldAt(i);
            });
        else if (o == "need") doc->GetOrCreateAcroForm().SetNeedAppearances(op.num("b") != 0);
        else if (o == "reload") reload(op.num("update") != 0);
        else throw runtime_error("driver: op " + o);
    }
};
void run(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        J r = J::obj();
        J e = guarded([&]() { x.step(op, r); return J::obj(); });
        r.set("err", e.str("err"));
        if (!r.has("skip")) r.set("skip", 0);
        if (op.num("quiet") && !r.num("skip")) { r.set("oerr", ""); ev.set("out", r); emit(ev); continue; }
        J w = guarded([&]() { return J::obj().set("o", x.obs()); });
        r.set("oerr", w.str("err"));
        if (w.has("o")) r.set("obs", w["o"]);
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("forms", run);
}
