// Reads byte sequences through the UTF-8 reader.
#include "TameParse/TameParse.h"
#include "json.h"
#include <fstream>
J observe(const J& c) {
    std::vector<int> b = c.at("bytes").ints(); std::string s;
    for (size_t i = 0; i < b.size(); ++i) s += (char) b[i];
    std::istream* in = NULL;
    in = new std::istringstream(s);
    util::utf8reader r(in, true);
    J o = J::object(), u = J::array();
    o["initially"] = J(r.good());
    wchar_t w = 1;
    for (size_t n = 0; n < 2 * b.size() + 4; ++n) { w = 1; r.get(w); if (!r.good()) break; u.push(J((long) w)); }
    o["units"] = u; o["after"] = J((long) w);
    bool regained = false;
    for (int i = 0; i < 6; ++i) { w = 1; r.get(w); if (r.good() || w != 0) regained = true; }
    o["regained"] = J(regained);
    return o;
}
