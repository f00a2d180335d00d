#include "plan.hpp"
#include <sstream>
#include <cstdio>
namespace sim {
static std::string esc(const std::string & s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%') o += char(c); else { snprintf(b, sizeof b, "%%%02x", c); o += b; } }
    return o.empty() ? "%" : o;
}
static std::string unesc(const std::string & s) {
    if (s == "%") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) { o += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else o += s[i];
    return o;
}
std::string Plan::to_text() const {
    std::ostringstream o;
    o << "simplan 1\nproperty " << property << "\nworld " << world << "\nseed " << seed << "\nclients " << clients
      << "\nthreaded " << threaded << "\nhact " << hact << "\n";
    for (auto & i : init) o << "init " << i.client << ' ' << i.type << ' ' << i.slot << ' ' << str(i.v) << "\n";
    for (size_t c = 0; c < streams.size(); ++c) {
        auto & s = streams[c];
        o << "stream " << c << ' ' << s.wide << ' ' << s.base << ' ' << s.flags << ' ' << s.iexc << ' ' << s.oexc << ' '
          << s.grouping << ' ' << s.seekable << ' ' << esc(s.text) << "\n";
        o << "chunks " << c; for (int k : s.chunks) o << ' ' << k; o << "\n";
        for (auto & f : s.faults) o << "devfault " << c << ' ' << f.dir << ' ' << f.at << ' ' << f.kind << ' ' << f.len << "\n";
    }
    for (auto & s : steps) {
        o << "step " << s.client << ' ' << op_name[s.op] << ' ' << s.ta << ' ' << s.ia << ' ' << s.tb << ' ' << s.ib << ' '
          << s.tc << ' ' << s.ic << ' ' << str(s.imm) << ' ' << s.mode << ' ' << s.f.alloc_from << ' ' << s.f.alloc_count << ' '
          << s.f.hact << ' ' << s.f.token << ' ' << s.f.ctx << "\n";
    }
    for (auto & s : switches) o << "switch " << s.at << ' ' << s.to << "\n";
    o << "end\n";
    return o.str();
}
bool Plan::from_text(const std::string & txt, Plan & p, std::string & err) {
    std::istringstream in(txt); std::string line; bool end = false, head = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "simplan") { head = true; continue; }
        if (!head) { err = "not a plan"; return false; }
        if (k == "property") l >> p.property;
        else if (k == "world") l >> p.world;
        else if (k == "seed") l >> p.seed;
        else if (k == "clients") l >> p.clients;
        else if (k == "threaded") l >> p.threaded;
        else if (k == "hact") l >> p.hact;
        else if (k == "init") { Init i; std::string v; l >> i.client >> i.type >> i.slot >> v; i.v = parse128(v); p.init.push_back(i); }
        else if (k == "stream") {
            size_t c; l >> c; if (p.streams.size() <= c) p.streams.resize(c + 1);
            auto & s = p.streams[c]; std::string t;
            l >> s.wide >> s.base >> s.flags >> s.iexc >> s.oexc >> s.grouping >> s.seekable >> t; s.text = unesc(t);
        } else if (k == "chunks") { size_t c; l >> c; int x; if (p.streams.size() <= c) p.streams.resize(c + 1); while (l >> x) p.streams[c].chunks.push_back(x); }
        else if (k == "devfault") { size_t c; DevFault f; l >> c >> f.dir >> f.at >> f.kind >> f.len; if (p.streams.size() <= c) p.streams.resize(c + 1); p.streams[c].faults.push_back(f); }
        else if (k == "step") {
            Step s; std::string o, v;
            l >> s.client >> o >> s.ta >> s.ia >> s.tb >> s.ib >> s.tc >> s.ic >> v >> s.mode >> s.f.alloc_from >> s.f.alloc_count >> s.f.hact >> s.f.token;
            if (!(l >> s.f.ctx)) s.f.ctx = 0;
            s.imm = parse128(v); s.op = -1;
            for (int i = 0; i < N_STEP; ++i) if (o == op_name[i]) s.op = i;
            if (s.op < 0) { err = "unknown step " + o; return false; }
            p.steps.push_back(s);
        } else if (k == "switch") { Switch s; l >> s.at >> s.to; p.switches.push_back(s); }
        else if (k == "end") { end = true; break; }
        else { err = "unknown line " + k; return false; }
    }
    if (!end) { err = "truncated plan"; return false; }
    return true;
}
} // sim
