// Stand-in for lorina: a reader for the structural Verilog subset (assign with ~ & | ^ and parentheses) and stubs.
#pragma once
#include <cctype>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace lorina
{
enum class return_code { success, parse_error };
struct diagnostic_consumer {};
struct text_diagnostics : diagnostic_consumer {};
struct diagnostic_engine
{
    explicit diagnostic_engine(diagnostic_consumer*) {}
};
// expression tree handed to the reader
struct vp_expr
{
    char                 op;  // 'v' variable, '0', '1', '~', '&', '|', '^'
    std::string          name;
    std::vector<vp_expr> ch;
};
struct verilog_reader
{
    virtual ~verilog_reader() = default;
    virtual void on_module(const std::string&) const {}
    virtual void on_input(const std::string&) const {}
    virtual void on_output(const std::string&) const {}
    virtual bool on_assign(const std::string&, const vp_expr&) const { return true; }
    virtual void on_end() const {}
};
struct aiger_reader { virtual ~aiger_reader() = default; };
struct blif_reader { virtual ~blif_reader() = default; };
struct vp_lex
{
    std::string s;
    std::size_t i = 0;
    std::string next()
    {
        for (;;)
        {
            while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i;
            if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; continue; }
            break;
        }
        if (i >= s.size()) return "";
        if (s[i] == '\\') { std::size_t b = i; while (i < s.size() && !std::isspace(static_cast<unsigned char>(s[i]))) ++i; return s.substr(b, i - b); }
        if (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')
        {
            std::size_t b = i;
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_' || s[i] == '\'' || s[i] == '[' || s[i] == ']')) ++i;
            return s.substr(b, i - b);
        }
        return std::string(1, s[i++]);
    }
};
struct vp_vparser
{
    vp_lex      l;
    std::string t;
    bool        bad = false;
    void        adv() { t = l.next(); }
    vp_expr     prim()
    {
        if (t == "~" || t == "!") { adv(); auto e = prim(); return {'~', "", {e}}; }
        if (t == "(") { adv(); auto e = expr(); if (t != ")") bad = true; adv(); return e; }
        if (t.empty() || t == ";" || t == ")") { bad = true; return {'0', "", {}}; }
        auto n = t;
        adv();
        if (n == "1'b0" || n == "1'h0") return {'0', "", {}};
        if (n == "1'b1" || n == "1'h1") return {'1', "", {}};
        return {'v', n, {}};
    }
    vp_expr lev(char op, const std::function<vp_expr()>& sub)
    {
        auto e = sub();
        while (t.size() == 1 && t[0] == op && !bad) { adv(); auto r = sub(); e = {op, "", {e, r}}; }
        return e;
    }
    vp_expr expr() { return lev('|', [this] { return lev('^', [this] { return lev('&', [this] { return prim(); }); }); }); }
};
inline return_code read_verilog(const std::string& file, const verilog_reader& r, diagnostic_engine* = nullptr)
{
    std::ifstream f(file);
    if (!f) return return_code::parse_error;
    vp_vparser p;
    p.l.s.assign(std::istreambuf_iterator<char>(f), {});
    p.adv();
    std::vector<std::pair<std::string, vp_expr>> as;
    if (p.t != "module") return return_code::parse_error;
    p.adv();
    r.on_module(p.t);
    while (!p.t.empty() && p.t != ";") p.adv();
    p.adv();
    while (!p.t.empty() && p.t != "endmodule" && !p.bad)
    {
        const auto kw = p.t;
        p.adv();
        if (kw == "input" || kw == "output" || kw == "wire")
            while (!p.t.empty() && p.t != ";")
            {
                if (p.t != ",") { if (kw == "input") r.on_input(p.t); else if (kw == "output") r.on_output(p.t); }
                p.adv();
            }
        else if (kw == "assign")
        {
            const auto lhs = p.t;
            p.adv();
            if (p.t != "=") return return_code::parse_error;
            p.adv();
            as.emplace_back(lhs, p.expr());
            if (p.t != ";") return return_code::parse_error;
        }
        else return return_code::parse_error;
        p.adv();
    }
    if (p.bad || p.t != "endmodule") return return_code::parse_error;
    bool progress = true;
    while (progress && !as.empty())
    {
        progress = false;
        for (auto it = as.begin(); it != as.end();)
            if (r.on_assign(it->first, it->second)) { it = as.erase(it); progress = true; } else ++it;
    }
    if (!as.empty()) return return_code::parse_error;
    r.on_end();
    return return_code::success;
}
inline return_code read_aiger(const std::string&, const aiger_reader&, diagnostic_engine* = nullptr) { return return_code::parse_error; }
inline return_code read_blif(const std::string&, const blif_reader&, diagnostic_engine* = nullptr) { return return_code::parse_error; }
template <typename R>
inline return_code read_genlib(std::istream&, const R&, diagnostic_engine* = nullptr) { return return_code::parse_error; }
}  // namespace lorina
