// Stand-in for tinyxml2: a small XML DOM reader with the same reading interface.
#pragma once
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace tinyxml2
{
class XMLElement
{
  public:
    std::string                                      name, text;
    bool                                             has_text = false;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<std::unique_ptr<XMLElement>>         kids;
    XMLElement*                                      parent = nullptr;
    std::size_t                                      pos    = 0;
    const char*                                      Name() const { return name.c_str(); }
    const char*                                      GetText() const { return has_text ? text.c_str() : nullptr; }
    const char*                                      Attribute(const char* n) const
    {
        for (auto& a : attrs)
            if (a.first == n) return a.second.c_str();
        return nullptr;
    }
    XMLElement* FirstChildElement(const char* n = nullptr) const
    {
        for (auto& k : kids)
            if (!n || k->name == n) return k.get();
        return nullptr;
    }
    XMLElement* NextSiblingElement(const char* n = nullptr) const
    {
        if (!parent) return nullptr;
        for (std::size_t i = pos + 1; i < parent->kids.size(); ++i)
            if (!n || parent->kids[i]->name == n) return parent->kids[i].get();
        return nullptr;
    }
};
class XMLDocument
{
  public:
    int Parse(const char* s)
    {
        root = std::make_unique<XMLElement>();
        p    = s;
        err  = 0;
        parse_children(root.get());
        if (!err && *p) err = 14;
        if (!err && root->kids.empty()) err = 13;
        return err;
    }
    int         ErrorID() const { return err; }
    const char* ErrorName() const { return err ? "XML_ERROR" : "XML_SUCCESS"; }
    XMLElement* FirstChildElement(const char* n = nullptr) const { return root ? root->FirstChildElement(n) : nullptr; }

  private:
    static std::string unescape(const std::string& s)
    {
        static const std::pair<const char*, char> es[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
        std::string                               r;
        for (std::size_t i = 0; i < s.size();)
        {
            bool hit = false;
            for (auto& [k, c] : es)
                if (s.compare(i, std::strlen(k), k) == 0)
                {
                    r += c;
                    i += std::strlen(k);
                    hit = true;
                    break;
                }
            if (!hit) r += s[i++];
        }
        return r;
    }
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
    static bool nm(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-' || c == '.' || c == ':'; }
    void parse_children(XMLElement* e)
    {
        while (!err)
        {
            const char* st = p;
            while (*p && *p != '<') ++p;
            std::string t(st, p);
            if (t.find_first_not_of(" \n\r\t") != std::string::npos)
            {
                if (e == root.get()) { err = 7; return; }
                // only text that is the element's first child is reported by GetText
                if (e->kids.empty() && !e->has_text)
                {
                    e->has_text = true;
                    // tinyxml2 drops the white space before the first character of a text node? no: it keeps it
                    e->text = unescape(t);
                }
            }
            if (!*p) { if (e != root.get()) err = 6; return; }
            if (p[1] == '/') return;
            if (p[1] == '?') { const char* q = std::strstr(p, "?>"); if (!q) { err = 9; return; } p = q + 2; continue; }
            if (p[1] == '!' && p[2] == '-' && p[3] == '-') { const char* q = std::strstr(p, "-->"); if (!q) { err = 9; return; } p = q + 3; continue; }
            if (p[1] == '!') { const char* q = std::strchr(p, '>'); if (!q) { err = 9; return; } p = q + 1; continue; }
            ++p;
            auto        k = std::make_unique<XMLElement>();
            const char* b = p;
            while (nm(*p)) ++p;
            k->name.assign(b, p);
            if (k->name.empty()) { err = 6; return; }
            k->parent = e;
            k->pos    = e->kids.size();
            for (;;)
            {
                ws();
                if (*p == '>' || (*p == '/' && p[1] == '>')) break;
                const char* ab = p;
                while (nm(*p)) ++p;
                if (ab == p) { err = 8; return; }
                std::string an(ab, p);
                ws();
                if (*p != '=') { err = 8; return; }
                ++p;
                ws();
                const char q = *p;
                if (q != '"' && q != '\'') { err = 8; return; }
                const char* vb = ++p;
                while (*p && *p != q) ++p;
                if (!*p) { err = 8; return; }
                k->attrs.emplace_back(an, unescape(std::string(vb, p)));
                ++p;
            }
            XMLElement* kp = k.get();
            e->kids.push_back(std::move(k));
            if (*p == '/') { p += 2; continue; }
            ++p;
            parse_children(kp);
            if (err) return;
            // closing tag
            p += 2;
            const char* cb = p;
            while (nm(*p)) ++p;
            if (std::string(cb, p) != kp->name) { err = 16; return; }
            ws();
            if (*p != '>') { err = 6; return; }
            ++p;
        }
    }
    std::unique_ptr<XMLElement> root;
    const char*                 p   = nullptr;
    int                         err = 0;
};
}  // namespace tinyxml2
